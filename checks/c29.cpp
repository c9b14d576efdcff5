// C29: everything the contour finder found reaches the Java containers: all small images, lists of blobs with every combination of
// hole counts, contours around the ends of storage blocks, and all histories of images and settings, whatever the containers held.
#include "chang.h"
using namespace boofcv;
const char* mc_property = "C29";
struct Look { bool eight = false, save = true; int min = 0, max = 0x7fffffff; };
struct Pic { uint32_t w, h; std::vector<U8> px; };
struct Held { int capacity, size, blocks, sets, slack; bool reset; };
static void quiet(Bridge& b, const char* call) { if (b.j.pending) { b.j.pending = nullptr; b.c.fail("refusal", "%s: %s ended with a Java exception (%s)", b.what.c_str(), call, b.j.pending_what.c_str()); } }
static void process(Bridge& b, Chang& ch, const Pic& p, const Look& l, int lin, int lout, uint32_t seed, bool reset = true) {
    JImg<U8> in(b, p.w, p.h, lin, seed); in.set(p.px); JImg<S32> lab(b, p.w, p.h, lout, seed + 1);
    if (reset) ch.java_reset(); else jvm::contour_log().clear();
    b.call<void>(CHANG("native_1process"), ch.self, b.ref(in.img), b.ref(lab.img)); quiet(b, "native_process");
    // a new library object with the same settings
    LinearContourLabelChang2004 lib(l.eight ? ConnectRule::EIGHT : ConnectRule::FOUR); lib.saveInternalContours = l.save; lib.minContourSize = (uint32_t)l.min; lib.maxContourSize = (uint32_t)l.max;
    Gray<U8> gi(p.w, p.h); std::copy(p.px.begin(), p.px.end(), gi.data); Gray<S32> gl(p.w, p.h); lib.process(gi, gl);
    lab.check(std::vector<S32>(gl.data, gl.data + p.w * p.h), "label"); in.check_unchanged("binary"); ch.compare(lib);
}
static void set_rule(Bridge& b, Chang& ch, bool eight) { b.call<void>(CHANG("setConnectRule"), ch.self, b.ref(eight ? ch.eight : ch.four)); quiet(b, "setConnectRule"); }
static void set_save(Bridge& b, Chang& ch, bool on) { b.call<void>(CHANG("setSaveInnerContour"), ch.self, (jboolean)on); quiet(b, "setSaveInnerContour"); }
static void set_min(Bridge& b, Chang& ch, int v) { b.call<void>(CHANG("setMinContour"), ch.self, (jint)v); quiet(b, "setMinContour"); }
static void set_max(Bridge& b, Chang& ch, int v) { b.call<void>(CHANG("setMaxContour"), ch.self, (jint)v); quiet(b, "setMaxContour"); }
static void set_all(Bridge& b, Chang& ch, const Look& l) { set_rule(b, ch, l.eight); set_save(b, ch, l.save); set_min(b, ch, l.min); set_max(b, ch, l.max); }
static void getters(Bridge& b, Chang& ch, const Look& l) {
    jint mn = b.call<jint>(CHANG("getMinContour"), ch.self), mx = b.call<jint>(CHANG("getMaxContour"), ch.self); bool sv = b.call<jboolean>(CHANG("isSaveInternalContours"), ch.self);
    jobject o = b.call<jobject>(CHANG("getConnectRule"), ch.self); (void)o; Obj* rule = b.j.last_object; quiet(b, "a getter"); b.c.s->checks.fetch_add(4, std::memory_order_relaxed);
    if (mn != l.min) b.c.fail("getter", "%s: getMinContour returns %d, %d was set", b.what.c_str(), mn, l.min);
    if (mx != l.max) b.c.fail("getter", "%s: getMaxContour returns %d, %d was set", b.what.c_str(), mx, l.max);
    if (sv != l.save) b.c.fail("getter", "%s: isSaveInternalContours returns %d, %d was set", b.what.c_str(), sv, l.save);
    if (rule != (l.eight ? ch.eight : ch.four)) b.c.fail("getter", "%s: getConnectRule does not return %s", b.what.c_str(), l.eight ? "EIGHT" : "FOUR");
}
static void open(Bridge& b, Chang& ch) { b.call<void>(CHANG("native_1init"), ch.self); quiet(b, "native_init"); if (!ch.self->get("nativePtr").j) b.c.fail("no-object", "native_init left no native object"); }
static void close(Bridge& b, Chang& ch) { b.call<void>(CHANG("native_1destroy"), ch.self); quiet(b, "native_destroy"); }
static Held held_of(mc::Ctx& c, bool full) {
    static const Held all[] = {{10, 10, 0, 0, 0, true}, {0, 0, 0, 0, 0, true}, {1, 1, 1, 2, 5, true}, {3, 0, 3, 0, 0, false}, {10, 4, 2, 5, 5, false}, {0, 0, 0, 9, 5, false}, {1, 0, 3, 3, 0, true}, {30, 30, 1, 1, 0, false}};
    return all[c.choose(full ? 8 : 3, "containers")];
}
// a row of blobs, each three pixels high with its number of holes
static Pic ladders(const std::vector<int>& holes) {
    Pic p; p.w = 1; p.h = 5; for (int n : holes) p.w += 2 * n + 2; p.px.assign(p.w * p.h, 0); uint32_t x = 1;
    for (int n : holes) { for (uint32_t y = 1; y < 4; y++) for (int i = 0; i < 2 * n + 1; i++) p.px[y * p.w + x + i] = !(y == 2 && i % 2); x += 2 * n + 2; }
    return p;
}
// single pixels, then a line, then single pixels; line < 0: a ladder with that many holes
static Pic stretch(int before, int line, int after) {
    int len = line < 0 ? -2 * line + 1 : line; Pic p; p.w = std::max(101, len + 2); int per = (p.w - 1) / 2, r1 = (before + per - 1) / per, r2 = (after + per - 1) / per; p.h = 2 * r1 + 4 + 2 * r2 + 1; p.px.assign(p.w * p.h, 0);
    for (int i = 0; i < before; i++) p.px[(2 * (i / per)) * p.w + 1 + 2 * (i % per)] = 1;
    for (int i = 0; i < len; i++) { p.px[(2 * r1) * p.w + 1 + i] = 1; if (line < 0) { p.px[(2 * r1 + 1) * p.w + 1 + i] = i % 2 == 0; p.px[(2 * r1 + 2) * p.w + 1 + i] = 1; } }
    for (int i = 0; i < after; i++) p.px[(2 * r1 + 4 + 2 * (i / per)) * p.w + 1 + 2 * (i % per)] = 1;
    return p;
}
// one winding line of so many pixels, then a small blob
static Pic snake(uint32_t w, uint32_t h, int points) {
    Pic p{w, h + 5, std::vector<U8>(w * (h + 5))}; int n = points / 2 + 1; for (uint32_t y = 0; y < h && n; y++) for (uint32_t i = 0; i < w && n; i++) { uint32_t x = y / 2 % 2 ? w - 1 - i : i; if (y % 2 && i != w - 1) continue; p.px[y * w + (y % 2 ? (y / 2 % 2 ? 0 : w - 1) : x)] = 1; n--; }
    for (int i = 0; i < 8; i++) { static const int dx[] = {0, 1, 2, 0, 2, 0, 1, 2}, dy[] = {0, 0, 0, 1, 1, 2, 2, 2}; p.px[(h + 1 + dy[i]) * w + 1 + dx[i]] = 1; }
    return p;
}
static const std::vector<Pic>& menu() {
    static const std::vector<Pic> m = [] {
        std::vector<Pic> v; auto add = [&](uint32_t w, uint32_t h, const char* s) { Pic p{w, h, {}}; for (; *s; s++) if (*s != '/') p.px.push_back(*s == '1'); v.push_back(p); };
        add(3, 3, "111/101/111"); add(2, 1, "00"); v.push_back(ladders({2, 0, 5})); v.push_back(snake(31, 64, 1998)); add(6, 4, "111111/101101/111111/010010"); add(5, 5, "11111/10001/10101/10001/11111"); v.push_back(ladders({0, 12, 1})); add(7, 1, "1101101"); v.push_back(ladders({0, 300, 2})); add(5, 4, "10101/01010/10101/01010");
        return v; }();
    return m;
}
static void image_of(mc::Ctx& c, Bridge& b, const Held& k, const Pic& p, const Look& l, int lin, int lout, uint64_t key) {
    Chang ch(b, k.capacity, k.size, k.blocks, k.sets); jvm::grow_slack() = k.slack; open(b, ch); set_all(b, ch, l); process(b, ch, p, l, lin, lout, 5, k.reset);
    uint64_t h = key; for (auto& r : jvm::contour_log()) h = mc::mix(h, r.id * 131 + r.external * 7 + r.internal.size()); c.state(h); close(b, ch);
}
void mc_body(mc::Ctx& c) {
    int family = c.choose(4, "family"); bool copies = !c.flag("pinning"); Bridge b(c, copies); char t[200]; b.what = "contour finder";
    if (family == 0) {              // every small image
        struct Shape { uint32_t w, h; }; std::vector<Shape> shapes = {{1, 1}, {2, 2}, {3, 3}, {1, 5}, {5, 1}}; if (c.thorough) { shapes.push_back({4, 3}); shapes.push_back({3, 4}); }
        Shape s = c.pick(shapes, "shape"); Held k = held_of(c, c.thorough); Look l; l.eight = c.flag("eight"); l.save = c.flag("save"); int lim = c.choose(c.thorough ? 4 : 3, "limits"); l.min = lim == 1 ? 2 : lim == 3 ? 5 : 0; l.max = lim == 2 ? 6 : 0x7fffffff; c.shard();
        uint32_t n = s.w * s.h; c.describe("every %ux%u image, rule %d save %d min %d max %d, containers %d/%d/%d/%d+%d", s.w, s.h, l.eight ? 8 : 4, l.save, l.min, l.max, k.capacity, k.size, k.blocks, k.sets, k.slack);
        for (uint32_t v = 0; v < 1u << n; v++) {
            Bridge bb(c, copies); Pic p{s.w, s.h, std::vector<U8>(n)}; for (uint32_t i = 0; i < n; i++) p.px[i] = v >> i & 1;
            snprintf(t, sizeof t, "%ux%u image number %u, rule %d save %d min %d max %d", s.w, s.h, v, l.eight ? 8 : 4, l.save, l.min, l.max); bb.what = t; image_of(c, bb, k, p, l, v % JLAYOUTS, v / JLAYOUTS % JLAYOUTS, mc::mix(s.w * 16 + s.h, v));
        }
    } else if (family == 1) {       // every list of blobs with these numbers of holes
        static const int counts[] = {0, 1, 2, 4, 11}; int n = c.range(1, c.thorough ? 4 : 3, "blobs"); std::vector<int> hs; std::string d; for (int i = 0; i < n; i++) { hs.push_back(counts[c.choose(5, "holes")]); d += std::to_string(hs.back()) + " "; }
        Held k = held_of(c, true); Look l; l.eight = c.flag("eight"); l.save = c.flag("save"); int lim = c.choose(3, "limits"); if (lim == 1) l.min = 9; if (lim == 2) l.max = 8; c.shard();
        b.what = "blobs with " + d + "holes"; c.describe("%s, rule %d, save %d, min %d, max %d, containers %d/%d+%d", b.what.c_str(), l.eight ? 8 : 4, l.save, l.min, l.max, k.capacity, k.size, k.slack);
        image_of(c, b, k, ladders(hs), l, c.choose(2, "layout"), 1, mc::mix(n, l.save));
    } else if (family == 2) {       // contours around the ends of storage blocks (2000 points)
        int before = c.thorough ? (c.flag("second block") ? 2000 : 0) + c.range(1990, 2006, "points before") : c.pick({1997, 1998, 1999, 2000, 2001, 3999}, "points before"), line = c.pick({1, 2, 3, 5, 9, 1001, 1002, 1500, 2100, 5000, -2, -1003}, "line"), after = c.pick({0, 1, 7, 1999, 2001}, "points after");
        Held k = held_of(c, false); Look l; l.eight = c.flag("eight"); l.save = c.flag("save"); int lim = c.thorough ? c.choose(2, "limits") : (before + line) & 1; if (lim) l.min = 2; c.shard();
        snprintf(t, sizeof t, "%d single pixels, a line of %d, %d single pixels", before, line, after); b.what = t; c.describe("%s, rule %d min %d", t, l.eight ? 8 : 4, l.min);
        image_of(c, b, k, stretch(before, line, after), l, 0, 1, mc::mix(before * 64 + after, line));
    } else {                        // histories of images and settings on two objects
        int depth = 3; const auto& m = menu(); Held k = c.thorough ? held_of(c, false) : Held{1, 1, 1, 2, 5, true}; if (!c.thorough && !copies) return; jvm::grow_slack() = k.slack; Chang a(b, k.capacity, k.size, k.blocks, k.sets), o(b, 2, 2, 0, 0); Chang* obj[2] = {&a, &o};
        Look l[2]; for (int i = 0; i < 2; i++) { open(b, *obj[i]); getters(b, *obj[i], l[i]); } uint64_t h = 7;
        for (int d = 0; d < depth; d++) {
            int set = c.choose(7, "setting"), im = c.choose(d == depth - 1 ? (uint32_t)m.size() : d == 0 && c.thorough ? 4 : 3, "image"), w = d ? c.choose(2, "object") : 0; if (d == 1) c.shard();
            Chang& ch = *obj[w]; Look& k2 = l[w]; const char* names[] = {"no setting", "rule 8", "rule 4", "save off", "save on", "min 5", "max 9"};
            snprintf(t, sizeof t, "object %d: %s, then image %d (%ux%u)", w, names[set], im, m[im].w, m[im].h); c.describe("%s; ", t); b.what = std::string("call ") + std::to_string(d + 1) + ": " + t;
            if (set == 1 || set == 2) set_rule(b, ch, k2.eight = set == 1); if (set == 3 || set == 4) set_save(b, ch, k2.save = set == 4); if (set == 5) set_min(b, ch, k2.min = 5); if (set == 6) set_max(b, ch, k2.max = 9);
            for (int i = 0; i < 2; i++) getters(b, *obj[i], l[i]);
            process(b, ch, m[im], k2, d % JLAYOUTS, (d + 1) % JLAYOUTS, 3 + d * 5, d != 1); h = mc::mix(h, set * 100 + im * 2 + w); c.state(h); c.step();
        }
        for (int i = 0; i < 2; i++) { getters(b, *obj[i], l[i]); close(b, *obj[i]); close(b, *obj[i]); }
    }
}
