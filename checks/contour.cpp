// C01 labels, C02 contours, C03 size limits, C04 history independence of LinearContourLabelChang2004.
// Exhaustive over all binary images of the listed shapes (times rule, memory layout, limits, histories).
#include "util.h"
#include "contour.h"
#include "contour_ref.h"
using namespace boofcv;
#ifndef PROP
#define PROP 1
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
const char* mc_property = "C0" STR(PROP);
typedef std::vector<uint8_t> Bits;

static std::string show_bits(const Bits& b, int w) {
    std::string r; for (size_t i = 0; i < b.size() && i < 1500; i++) { if (i && i % w == 0) r += '/'; r += b[i] ? '1' : '0'; } return r;
}
[[noreturn]] static void bad(mc::Ctx& c, const char* sig, const Bits& b, int w, bool eight, const std::string& what) {
    c.fail(sig, "%s [rule %d, %dx%d image %s]", what.c_str(), eight ? 8 : 4, w, (int)(w ? b.size() / w : 0), show_bits(b, w).c_str());
}
static std::string fmt(const char* f, ...) { char s[400]; va_list a; va_start(a, f); vsnprintf(s, sizeof s, f, a); va_end(a); return s; }

// ---- larger structured images, to leave one storage block, one byte of labels, and one machine word of width ----
static Bits pattern(int id, int& w, int& h) {
    auto make = [&](int W, int H, auto f) { w = W; h = H; Bits b(W * H); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) b[y * W + x] = (uint8_t)f(x, y, W, H); return b; };
    auto spiral = [&](int n, int gap) {
        w = h = n; Bits b(n * n, 0);
        int x = 0, y = 0, dx = 1, dy = 0; int l = 0, t = 0, r = n - 1, bo = n - 1;
        while (l <= r && t <= bo) {
            while (true) { b[y * n + x] = 1; int nx = x + dx, ny = y + dy; if (nx < l || nx > r || ny < t || ny > bo) break; x = nx; y = ny; }
            if (dx == 1) { t += gap; dx = 0; dy = 1; } else if (dy == 1) { r -= gap; dx = -1; dy = 0; } else if (dx == -1) { bo -= gap; dx = 0; dy = -1; } else { l += gap; dx = 1; dy = 0; }
        }
        return b;
    };
    switch (id) {
        case 0: return make(70, 70, [](int x, int y, int, int) { return (x + y) & 1; });
        case 1: return make(71, 65, [](int x, int y, int, int) { return !((x + y) & 1); });
        case 2: return make(130, 60, [](int x, int y, int, int) { return (x & 1) && (y & 1); });                       // many isolated pixels
        case 3: return make(101, 61, [](int x, int y, int, int) { return !((x & 1) && (y & 1)); });                     // one blob, many holes
        case 4: return make(300, 5, [](int x, int y, int, int H) { return x % 2 == 0 || y == H - 1; });                 // comb
        case 5: return make(5, 300, [](int x, int y, int W, int) { return y % 2 == 0 || x == W - 1; });
        case 6: return spiral(101, 2);
        case 7: return spiral(100, 3);
        case 8: return make(700, 700, [](int x, int y, int W, int H) { return x == 0 || y == 0 || x == W - 1 || y == H - 1; });   // ring with a 2800 pixel contour
        case 9: return make(700, 700, [](int x, int y, int W, int H) { return x > 0 && y > 0 && x < W - 1 && y < H - 1 && !(x == 350 && y == 350); });
        case 10: return make(64, 64, [](int, int, int, int) { return 1; });
        case 11: return make(64, 64, [](int, int, int, int) { return 0; });
        case 12: return make(4100, 1, [](int x, int, int, int) { return (x / 3) & 1; });
        case 13: return make(1, 4100, [](int, int y, int, int) { return (y / 2) & 1; });
        case 14: return make(2001, 1, [](int, int, int, int) { return 1; });
        case 15: return make(90, 90, [](int x, int y, int W, int H) { int d = std::min(std::min(x, y), std::min(W - 1 - x, H - 1 - y)); return (d & 1) == 0; }); // nested rings
        case 16: return make(63, 67, [](int x, int y, int, int) { return ((x ^ y) & 4) != 0 || ((x & y) & 1); });
        case 17: return make(97, 41, [](int x, int y, int, int) { return (x * 7 + y * 13) % 5 != 0; });
        case 18: return make(64, 33, [](int x, int y, int, int) { return (x + 2 * y) % 4 < 2; });
        case 19: return make(33, 64, [](int x, int y, int, int) { return (x / 2 + y / 3) % 2; });
        default: { // fixed pseudo-random textures of several densities
            int k = id - 20; w = 40 + 13 * (k % 4); h = 37 + 11 * (k % 3); uint32_t s = 77 + k * 7919; Bits b(w * h); int dens = 20 + 10 * (k % 7);
            for (auto& v : b) v = (lcg(s) % 100) < (uint32_t)dens; return b;
        }
    }
}
constexpr int PATTERNS = 41;

static ContourRef cref_;      // reused storage

// labels and the list of blobs
template<class FINDER> static void check_labels(mc::Ctx& c, FINDER& f, Img<S32>& lab, const Bits& b, int w, int h, bool eight) {
    (void)h;
    if ((int)f.contours.size() != cref_.N) bad(c, "blob-count", b, w, eight, fmt("found %zu blobs, expected %d", f.contours.size(), cref_.N));
    for (int y = 0; y < cref_.h; y++) { const S32* r = lab.row(y); for (int x = 0; x < w; x++) if (r[x] != cref_.label(x, y))
        bad(c, "label", b, w, eight, fmt("label of pixel (%d,%d) is %d, expected %d", x, y, r[x], cref_.label(x, y))); }
    for (int i = 0; i < cref_.N; i++) if ((int)f.contours[i].id != i + 1) bad(c, "blob-id", b, w, eight, fmt("blob %d of the list has id %u", i, f.contours[i].id));
    c.s->checks.fetch_add(b.size() + 1, std::memory_order_relaxed);
}

static bool same_points(mc::Ctx& c, LinearContourLabelChang2004& f, uint32_t set, const RefContour& r, std::string& why) {
    const PackedSetInfo& in = f.packedPoints.set_info[set];
    uint32_t n = r.end - r.begin;
    if (in.size != n) { why = fmt("has %u points, expected %u", in.size, n); return false; }
    std::vector<Point2D<S32>> got; got.reserve(n); f.packedPoints.load_set(set, got);
    for (uint32_t i = 0; i < n; i++) if (got[i].x != cref_.px[r.begin + i] || got[i].y != cref_.py[r.begin + i]) {
        why = fmt("point %u is (%d,%d), expected (%d,%d)", i, got[i].x, got[i].y, cref_.px[r.begin + i], cref_.py[r.begin + i]); return false; }
    c.s->checks.fetch_add(n, std::memory_order_relaxed);
    return true;
}
// one external contour and one internal contour per hole, each the expected walk; limits decide which keep their points
static void check_contours(mc::Ctx& c, LinearContourLabelChang2004& f, const Bits& b, int w, bool eight, uint32_t mn = 0, uint32_t mx = 0xffffffffu, bool save = true) {
    if ((int)f.contours.size() != cref_.N) bad(c, "blob-count", b, w, eight, fmt("found %zu blobs, expected %d", f.contours.size(), cref_.N));
    uint32_t sets = f.packedPoints.number_of_sets();
    if (sets != cref_.ext.size() + cref_.holes.size()) bad(c, "contour-count", b, w, eight, fmt("%u contours, expected %zu external and %zu internal", sets, cref_.ext.size(), cref_.holes.size()));
    std::vector<uint8_t> used(sets, 0); std::string why;
    auto claim = [&](uint32_t s) { if (s >= sets || used[s]) bad(c, "contour-index", b, w, eight, fmt("contour index %u is out of range or used twice", s)); used[s] = 1; };
    std::vector<uint8_t> holedone(cref_.holes.size(), 0);
    auto keep = [&](const RefContour& r, bool external) { uint32_t n = r.end - r.begin; return n >= mn && n < mx && (external || save); };
    for (int i = 0; i < cref_.N; i++) {
        ContourPacked& k = f.contours[i];
        claim(k.externalIndex);
        if (keep(cref_.ext[i], true)) { if (!same_points(c, f, k.externalIndex, cref_.ext[i], why)) bad(c, "external-contour", b, w, eight, fmt("external contour of blob %d %s", i + 1, why.c_str())); }
        else if (f.packedPoints.set_info[k.externalIndex].size != 0) bad(c, "limit", b, w, eight, fmt("external contour of blob %d (length %u) kept %u points although min=%u max=%u", i + 1, cref_.ext[i].end - cref_.ext[i].begin, f.packedPoints.set_info[k.externalIndex].size, mn, mx));
        size_t want = 0; for (auto& hl : cref_.holes) if (hl.first == i + 1) want++;
        if (k.internalIndexes.size() != want) bad(c, "hole-count", b, w, eight, fmt("blob %d has %zu internal contours, expected %zu", i + 1, k.internalIndexes.size(), want));
        uint32_t empty = 0, wantempty = 0;
        for (auto& hl : cref_.holes) if (hl.first == i + 1 && !keep(hl.second, false)) wantempty++;
        for (uint32_t s : k.internalIndexes) {
            claim(s);
            if (f.packedPoints.set_info[s].size == 0) { empty++; continue; }
            Point2D<S32> p = f.packedPoints.at(s, 0); bool found = false;
            for (size_t q = 0; q < cref_.holes.size() && !found; q++) {
                auto& hl = cref_.holes[q];
                if (hl.first != i + 1 || holedone[q] || hl.second.sx != p.x || hl.second.sy != p.y) continue;
                found = true; holedone[q] = 1;
                if (!keep(hl.second, false)) bad(c, "limit", b, w, eight, fmt("internal contour of blob %d (length %u) kept its points although min=%u max=%u save=%d", i + 1, hl.second.end - hl.second.begin, mn, mx, save));
                if (!same_points(c, f, s, hl.second, why)) bad(c, "internal-contour", b, w, eight, fmt("internal contour of blob %d %s", i + 1, why.c_str()));
            }
            if (!found) bad(c, "internal-contour", b, w, eight, fmt("internal contour of blob %d starts at (%d,%d), where none should start", i + 1, p.x, p.y));
        }
        if (empty != wantempty) bad(c, "limit", b, w, eight, fmt("%u internal contours of blob %d have no points, expected %u (min=%u max=%u save=%d)", empty, i + 1, wantempty, mn, mx, save));
    }
}
static uint64_t outcome(LinearContourLabelChang2004& f, bool eight) {
    uint64_t h = mc::mix(eight, f.contours.size());
    for (auto& k : f.contours) { h = mc::mix(h, k.internalIndexes.size()); h = mc::mix(h, f.packedPoints.set_info[k.externalIndex].size); }
    return h;
}

static Bits bits_of(uint64_t v, int n) { Bits b(n); for (int i = 0; i < n; i++) b[i] = (v >> i) & 1; return b; }
struct Shape { int w, h; };

// all images with w*h <= limit (or the listed ones), low bits looped inside one execution
template<class F> static void each_image(mc::Ctx& c, int n, F f) {
    int lo = std::min(n, 7), hi = n - lo, top = std::min(hi, 10), mid = hi - top;
    uint64_t a = c.choose(1u << top, "top"); c.shard();
    uint64_t m = mid ? c.choose(1u << mid, "mid") : 0;
    uint64_t base = (a << mid | m) << lo;
    for (uint64_t v = base; v < base + (1ull << lo); v++) { f(bits_of(v, n)); c.step(); }
}
static Bits mirror(const Bits& half, int w, int h) {    // left-right and top-bottom symmetric image
    int W = (w + 1) / 2; Bits b(w * h);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int xx = std::min(x, w - 1 - x), yy = std::min(y, h - 1 - y); b[y * w + x] = half[yy * W + xx]; }
    return b;
}

static void run_one(mc::Ctx& c, const Bits& b, int w, int h, bool eight, int lb, int ll) {
    Img<U8> in(w, h, lb, 3); in.set(b);
    Img<S32> lab(w, h, ll, 5);
    LinearContourLabelChang2004 f(eight ? EIGHT : FOUR);
    f.process(in.g(), lab.g());
    cref_.compute(b.data(), w, h, eight);
#if PROP == 1
    check_input(c, in, b, "binary"); check_stray(c, lab, "label");
    check_labels(c, f, lab, b, w, h, eight);
#else
    check_contours(c, f, b, w, eight);
#endif
    c.state(mc::mix(outcome(f, eight), mc::hash_bytes(b.data(), b.size(), w * 8 + lb)));
}

static std::vector<Shape> shapes_upto(int cells, int maxside) {
    std::vector<Shape> s; for (int n = 1; n <= cells; n++) for (int w = 1; w <= std::min(n, maxside); w++) if (n % w == 0 && n / w <= maxside) s.push_back({w, n / w});
    return s;
}

#if PROP == 1 || PROP == 2
void mc_body(mc::Ctx& c) {
    static const std::vector<Shape> small = shapes_upto(12, 12);
    static const std::vector<Shape> mediumq = {{1, 16}, {16, 1}, {2, 7}, {7, 2}, {2, 8}, {8, 2}, {4, 4}, {3, 5}, {5, 3}, {3, 6}, {6, 3}, {4, 5}, {5, 4}};
    static const std::vector<Shape> mediumt = {{1, 16}, {16, 1}, {2, 7}, {7, 2}, {2, 8}, {8, 2}, {4, 4}, {3, 5}, {5, 3}, {3, 6}, {6, 3}, {4, 5}, {5, 4}, {3, 7}, {7, 3}, {5, 5}, {4, 6}, {6, 4}};
    int family = c.choose(6, "family");
    if (family == 4) {          // large shapes, textures of several densities
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; bool eight = c.flag("eight"); int d = c.pick({2, 4, 5, 7}, "density"); c.shard(); int w = s.w, h = s.h; uint32_t sd = w * 3 + h; Bits b(w * h); for (auto& v : b) v = (int)(lcg(sd) % 8) < d; int l = (w + h + d) % 5;
        c.describe("a %dx%d texture of density %d/8, rule %d", w, h, d, eight ? 8 : 4); run_one(c, b, w, h, eight, l, (l + d) % 5); c.step(); return;
    }
    if (family == 5) {          // more than 2^16 blobs, holes, contour points
        int id = c.choose(6, "pattern"); bool eight = c.flag("eight"); c.shard(); int w = 530, h = 520; Bits b(w * h, 0); c.describe("huge pattern %d, rule %d", id, eight ? 8 : 4);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) b[y * w + x] = id == 0 ? (x & 1) && (y & 1) : id == 1 ? !((x & 1) && (y & 1)) : id == 2 ? (x & 1) || (y == 0 && x) || (y == h - 1 && !x) : id == 3 ? (x + y) & 1 : id == 4 ? (x % 4 == 0 || (y == 0 && x % 8 < 4) || (y == h - 1 && x % 8 >= 4)) : x % 3 != 2 && y % 3 != 2;
        run_one(c, b, w, h, eight, 0, 0); c.step(); return;
    }
    if (family == 0) {          // small images in every combination of layouts
        const Shape& s = c.pick(small, "shape"); bool eight = c.flag("eight"); int lb = c.choose(LAYOUTS, "in-layout"), ll = c.choose(LAYOUTS, "label-layout");
        c.describe("all %dx%d images, rule %d, %s input, %s labels", s.w, s.h, eight ? 8 : 4, layout_name[lb], layout_name[ll]);
        each_image(c, s.w * s.h, [&](const Bits& b) { run_one(c, b, s.w, s.h, eight, lb, ll); });
    } else if (family == 1) {   // medium images
        const Shape& s = c.pick(c.thorough ? mediumt : mediumq, "shape"); bool eight = c.flag("eight");
        c.describe("all %dx%d images, rule %d", s.w, s.h, eight ? 8 : 4);
        each_image(c, s.w * s.h, [&](const Bits& b) { unsigned k = 0; for (size_t i = 0; i < b.size(); i++) k = k * 2 + b[i]; k = k * 2654435761u >> 20; run_one(c, b, s.w, s.h, eight, k % 3, k / 3 % 3); });
    } else if (family == 2) {   // symmetric images: bigger shapes with nested holes
        Shape s = c.thorough ? c.pick({Shape{7, 7}, Shape{9, 7}, Shape{7, 9}, Shape{8, 9}}, "shape") : c.pick({Shape{7, 7}, Shape{8, 7}, Shape{7, 8}}, "shape"); bool eight = c.flag("eight");
        int W = (s.w + 1) / 2, H = (s.h + 1) / 2;
        c.describe("all symmetric %dx%d images, rule %d", s.w, s.h, eight ? 8 : 4);
        each_image(c, W * H, [&](const Bits& q) { Bits b = mirror(q, s.w, s.h); run_one(c, b, s.w, s.h, eight, 0, 0); });
    } else {
        int id = c.choose(PATTERNS, "pattern"); bool eight = c.flag("eight"); int lay = c.choose(LAYOUTS, "layout"); bool inv = c.flag("invert"); c.shard();
        int w, h; Bits b = pattern(id, w, h); if (inv) for (auto& v : b) v = !v;
        c.describe("pattern %d (%dx%d)%s, rule %d, %s", id, w, h, inv ? " inverted" : "", eight ? 8 : 4, layout_name[lay]);
        run_one(c, b, w, h, eight, lay, (lay + 1 + id) % LAYOUTS); c.step();
    }
}
#elif PROP == 3
static void limits(mc::Ctx& c, const Bits& b, int w, int h, bool eight, const std::vector<uint32_t>& mins, const std::vector<uint32_t>& maxs) {
    Img<U8> in(w, h, 0, 3); in.set(b); Img<S32> lab(w, h, 0, 5);
    cref_.compute(b.data(), w, h, eight);
    LinearContourLabelChang2004 base(eight ? EIGHT : FOUR); base.process(in.g(), lab.g());
    std::vector<S32> labels = lab.get();
    std::vector<size_t> nint; for (auto& k : base.contours) nint.push_back(k.internalIndexes.size());
    for (uint32_t mn : mins) for (uint32_t mx : maxs) for (int save = 0; save < 2; save++) {
        LinearContourLabelChang2004 f(eight ? EIGHT : FOUR);
        f.minContourSize = mn; f.maxContourSize = mx; f.saveInternalContours = save;
        f.process(in.g(), lab.g());
        if (lab.get() != labels) bad(c, "labels-changed", b, w, eight, fmt("labels differ with min=%u max=%u save=%d", mn, mx, save));
        bool same = f.contours.size() == nint.size();
        for (size_t i = 0; same && i < nint.size(); i++) same = f.contours[i].id == base.contours[i].id && f.contours[i].internalIndexes.size() == nint[i];
        if (!same) bad(c, "blobs-changed", b, w, eight, fmt("the blobs or their numbers of contours differ with min=%u max=%u save=%d", mn, mx, save));
        check_contours(c, f, b, w, eight, mn, mx, save);
        c.step();
    }
    c.state(mc::mix(outcome(base, eight), mc::hash_bytes(b.data(), b.size(), w)));
}
void mc_body(mc::Ctx& c) {
    static const std::vector<Shape> shapes = [] { auto s = shapes_upto(12, 12); for (Shape x : {Shape{4, 4}, Shape{3, 5}, Shape{5, 3}}) s.push_back(x); return s; }();
    static const std::vector<uint32_t> mins = {0, 1, 2, 4, 5, 8, 9, 0xffffffffu}, maxs = {0, 1, 2, 3, 4, 5, 8, 9, 0xffffffffu};
    int family = c.choose(3, "family");
    if (family == 0) {
        const Shape& s = c.pick(shapes, "shape"); bool eight = c.flag("eight");
        c.describe("all %dx%d images with every limit, rule %d", s.w, s.h, eight ? 8 : 4);
        static const std::vector<uint32_t> q1 = {0, 1, 5}, q2 = {4, 5, 9, 0xffffffffu}; bool few = !c.thorough && s.w * s.h > 12;
        each_image(c, s.w * s.h, [&](const Bits& b) { limits(c, b, s.w, s.h, eight, few ? q1 : mins, few ? q2 : maxs); });
    } else if (family == 1) {
        Shape s = c.thorough ? c.pick({Shape{7, 7}, Shape{8, 7}, Shape{7, 8}}, "shape") : c.pick({Shape{7, 7}, Shape{6, 7}}, "shape"); bool eight = c.flag("eight");
        static const std::vector<uint32_t> m1 = {0, 4, 8}, m2 = {5, 8, 16, 0xffffffffu};
        c.describe("all symmetric %dx%d images, rule %d", s.w, s.h, eight ? 8 : 4);
        each_image(c, ((s.w + 1) / 2) * ((s.h + 1) / 2), [&](const Bits& q) { limits(c, mirror(q, s.w, s.h), s.w, s.h, eight, m1, m2); });
    } else {
        // long contours: drop them at limits on both sides of the storage block size and of each contour's own length
        int id = c.choose(PATTERNS, "pattern"); bool eight = c.flag("eight"); c.shard();
        int w, h; Bits b = pattern(id, w, h); cref_.compute(b.data(), w, h, eight);
        uint32_t longest = 0, shortest = 0xffffffffu; auto see = [&](const RefContour& r) { uint32_t n = r.end - r.begin; longest = std::max(longest, n); shortest = std::min(shortest, n); };
        for (auto& r : cref_.ext) see(r); for (auto& r : cref_.holes) see(r.second);
        std::vector<uint32_t> m1 = {0, shortest, shortest + 1, longest, 2000}, m2 = {shortest, longest, longest + 1, 2000, 2001, 0xffffffffu};
        c.describe("pattern %d (%dx%d), rule %d, contours of %u to %u points", id, w, h, eight ? 8 : 4, shortest, longest);
        limits(c, b, w, h, eight, m1, m2);
    }
}
#else
// C04: histories.  The finder that has seen other images must agree with the reference, and with a new finder.
struct Item { int w, h; Bits b; };
static void step_history(mc::Ctx& c, LinearContourLabelChang2004& f, Gray<S32>& lab, const Item& it, bool eight, uint32_t mn, uint32_t mx, bool save, bool view) {
    Img<U8> in(it.w, it.h, view ? 1 : 0, 9); in.set(it.b);
    f.setConnectRule(eight ? EIGHT : FOUR); f.minContourSize = mn; f.maxContourSize = mx; f.saveInternalContours = save;
    if (f.getConnectRule() != (eight ? EIGHT : FOUR)) c.fail("rule", "getConnectRule does not return the rule that was set");
    f.process(in.g(), lab);
    check_input(c, in, it.b, "binary");
    if ((int)lab.width != it.w || (int)lab.height != it.h) bad(c, "label-shape", it.b, it.w, eight, fmt("label image is %ux%u", lab.width, lab.height));
    cref_.compute(it.b.data(), it.w, it.h, eight);
    for (int y = 0; y < it.h; y++) for (int x = 0; x < it.w; x++) if (lab.unsafe_at(x, y) != cref_.label(x, y))
        bad(c, "label", it.b, it.w, eight, fmt("after the history, the label of (%d,%d) is %d, expected %d", x, y, lab.unsafe_at(x, y), cref_.label(x, y)));
    check_contours(c, f, it.b, it.w, eight, mn, mx, save);
    c.step();
}
static const std::vector<Item>& alphabet() {
    static const std::vector<Item> a = [] {
        std::vector<Item> v;
        auto add = [&](int w, int h, const char* s) { Bits b; for (; *s; s++) if (*s != '/') b.push_back(*s == '1'); v.push_back({w, h, b}); };
        add(1, 1, "1"); add(3, 3, "111/111/111"); add(3, 3, "111/101/111"); add(3, 3, "101/010/101"); add(2, 3, "11/01/11"); add(3, 2, "111/101");
        add(5, 5, "11111/10001/10101/10001/11111"); add(5, 5, "00000/01110/01010/01110/00000"); add(6, 4, "111111/101101/111111/010010"); add(4, 6, "1111/1001/1001/1111/0000/1111");
        add(3, 3, "000/000/000"); add(5, 2, "10101/01010"); add(7, 1, "1101101"); add(1, 7, "1011011"); add(5, 5, "10101/01010/10101/01010/10101");
        int w, h; Bits b; for (int id : {0, 3, 6, 14, 17}) { b = pattern(id, w, h); v.push_back({w, h, b}); }
        return v;
    }();
    return a;
}
void mc_body(mc::Ctx& c) {
    int family = c.choose(3, "family");
    if (family == 0) {          // every ordered pair of 3x3 images (the same storage is reused), every pair of rules
        bool e1 = c.flag("eight1"), e2 = c.flag("eight2"); uint32_t a = c.choose(512, "first"); c.shard();
        Item A{3, 3, bits_of(a, 9)};
        c.describe("image %s rule %d, then every 3x3 image with rule %d", show_bits(A.b, 3).c_str(), e1 ? 8 : 4, e2 ? 8 : 4);
        for (uint32_t v = 0; v < 512; v++) {
            LinearContourLabelChang2004 f(FOUR); Gray<S32> lab;
            step_history(c, f, lab, A, e1, 0, 0xffffffffu, true, false);
            step_history(c, f, lab, Item{3, 3, bits_of(v, 9)}, e2, 0, 0xffffffffu, true, false);
            c.state(mc::mix(a << 12 | v, e1 * 2 + e2));
        }
    } else if (family == 1) {   // pairs of different shapes, all images of both
        static const std::vector<Shape> sh = {{2, 3}, {3, 2}, {4, 2}, {2, 4}, {1, 6}, {6, 1}, {2, 2}, {1, 1}, {3, 3}};
        Shape s1 = c.pick(sh, "shape1"), s2 = c.pick(sh, "shape2"); bool e1 = c.flag("eight1"), e2 = c.flag("eight2"); if (s1.w * s1.h + s2.w * s2.h > (c.thorough ? 18 : 16)) { return; }
        uint32_t a = c.choose(1u << (s1.w * s1.h), "first"); c.shard();
        Item A{s1.w, s1.h, bits_of(a, s1.w * s1.h)};
        c.describe("%dx%d image %s rule %d, then every %dx%d image with rule %d", s1.w, s1.h, show_bits(A.b, s1.w).c_str(), e1 ? 8 : 4, s2.w, s2.h, e2 ? 8 : 4);
        for (uint32_t v = 0; v < (1u << (s2.w * s2.h)); v++) {
            LinearContourLabelChang2004 f(FOUR); Gray<S32> lab;
            step_history(c, f, lab, A, e1, 0, 0xffffffffu, true, false);
            step_history(c, f, lab, Item{s2.w, s2.h, bits_of(v, s2.w * s2.h)}, e2, 0, 0xffffffffu, true, false);
        }
    } else {                    // longer histories over a menu of images, rules, limits and layouts
        const auto& al = alphabet(); int depth = 3;
        LinearContourLabelChang2004 f(c.thorough && c.flag("initial") ? EIGHT : FOUR); Gray<S32> lab; uint64_t hist = 0;
        for (int d = 0; d < depth; d++) {
            bool last = d == depth - 1;
            uint32_t n = d == 0 || last ? (uint32_t)al.size() : (c.thorough ? 15 : 10);
            uint32_t im = c.choose(n, "image"); const Item& it = al[im]; bool eight = c.flag("eight");
            int set = c.thorough ? c.choose(last ? 4 : 3, "settings") : c.choose(last ? (im < 10 ? 4 : 1) : d + 1, "settings");
            if (d == 1) c.shard();
            hist = mc::mix(hist, im * 8 + eight * 4 + set);
            uint32_t mn = set == 1 ? 5 : 0, mx = set == 2 ? 9 : 0xffffffffu; bool save = set != 3;
            c.describe("%dx%d image %s rule %d min %u max %u save %d", it.w, it.h, it.b.size() < 40 ? show_bits(it.b, it.w).c_str() : "(pattern)", eight ? 8 : 4, mn, mx, save);
            // earlier steps of the same history were checked when they were last
            if (d == depth - 1 || d == 0) step_history(c, f, lab, it, eight, mn, mx, save, d & 1);
            else {
                Img<U8> in(it.w, it.h, 0, 9); in.set(it.b); f.setConnectRule(eight ? EIGHT : FOUR); f.minContourSize = mn; f.maxContourSize = mx; f.saveInternalContours = save;
                f.process(in.g(), lab); c.step();
            }
            c.state(mc::mix(outcome(f, eight), hist));
        }
    }
}
#endif
