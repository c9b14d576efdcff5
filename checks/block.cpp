// C18 block grid and neighbourhoods, C19 block mean, C20 block min-max, C21 block Otsu: exhaustive over shapes, lengths,
// settings, layouts, small images and histories.
#include "threshold_block_filters.h"
#include "norm_ref.h"
#include "otsu_ref.h"
using namespace boofcv;
#ifndef PROP
#define PROP 19
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
const char* mc_property = "C" STR(PROP);
static const double scales[] = {1, 0.5, 0.95, 1.1, 2};
static bool dyadic(double s) { return s == 1 || s == 0.5 || s == 2; }
// the grid of blocks, from the documentation
struct Grid {
    uint32_t w, h, req, cols, rows, bw, bh; bool local;
    Grid(uint32_t w, uint32_t h, uint32_t req, bool local) : w(w), h(h), req(req), local(local) { bw = w / (w / req); bh = h / (h / req); cols = w / bw; rows = h / bh; }
    uint32_t bx(uint32_t x) const { return std::min(x / bw, cols - 1); }
    uint32_t by(uint32_t y) const { return std::min(y / bh, rows - 1); }
    uint32_t x0(uint32_t b) const { return b * bw; } uint32_t x1(uint32_t b) const { return b == cols - 1 ? w : (b + 1) * bw; }
    uint32_t y0(uint32_t b) const { return b * bh; } uint32_t y1(uint32_t b) const { return b == rows - 1 ? h : (b + 1) * bh; }
    // calls f(block x, block y) for the blocks whose statistics decide the pixels of block (x,y)
    template<class F> void around(uint32_t x, uint32_t y, F f) const { for (int j = local ? -1 : 0; j <= (local ? 1 : 0); j++) for (int i = local ? -1 : 0; i <= (local ? 1 : 0); i++) { int a = (int)x + i, b = (int)y + j; if (a >= 0 && b >= 0 && a < (int)cols && b < (int)rows) f((uint32_t)a, (uint32_t)b); } }
};
struct Setting { double scale = 1, tuning = 0, spread = -1; bool down = true, otsu2 = false; };
// compares the pixels of one block with an interval of admissible thresholds; false when the output fits none
template<class E> static bool fits(const std::vector<E>& px, const std::vector<U8>& got, const Grid& g, uint32_t bx, uint32_t by, double lo, double hi, bool down) {
    for (uint32_t y = g.y0(by); y < g.y1(by); y++) for (uint32_t x = g.x0(bx); x < g.x1(bx); x++) {
        double v = (double)px[y * g.w + x]; U8 o = got[y * g.w + x]; if (o > 1) return false;
        bool sure1 = v <= lo, sure0 = v > hi; if ((sure1 && o != (down ? 1 : 0)) || (sure0 && o != (down ? 0 : 1))) return false;
    }
    return true;
}
template<class E> static void complain(mc::Ctx& c, const std::vector<E>& px, const std::vector<U8>& got, const Grid& g, const Setting& s, uint32_t bx, uint32_t by, double lo, double hi) {
    c.fail("block", "%ux%u %s image %s, block %u (%u x %u, %u by %u pixels each), %s, scale %g, tuning %g, spread %g, %s%s: output %s, block (%u,%u) needs threshold %.9g..%.9g", g.w, g.h, type_name<E>(), show(px, g.w).c_str(), g.req, g.cols, g.rows, g.bw, g.bh, g.local ? "local" : "single", s.scale, s.tuning, s.spread, s.down ? "down" : "up", s.otsu2 ? ", second variant" : "", show(got, g.w).c_str(), bx, by, lo, hi);
}
#if PROP == 19
template<class E> struct Filter : ThresholdBlockMean<E> { Filter(const ConfigLength& l, bool local, const Setting& s) : ThresholdBlockMean<E>(l, local, s.scale, s.down) {} };
template<class E> static void judge(mc::Ctx& c, const std::vector<E>& px, const std::vector<U8>& got, const Grid& g, const Setting& s) {
    bool f = std::is_floating_point<E>::value; float sc = (float)s.scale; double mag = magnitude(px); std::vector<double> lo(g.cols * g.rows), hi(lo); std::vector<char> exact(g.cols * g.rows, 1);
    for (uint32_t by = 0; by < g.rows; by++) for (uint32_t bx = 0; bx < g.cols; bx++) {
        double sum = 0; uint32_t n = 0; for (uint32_t y = g.y0(by); y < g.y1(by); y++) for (uint32_t x = g.x0(bx); x < g.x1(bx); x++, n++) sum += (double)px[y * g.w + x];
        double v = sum * (double)sc / n, eps = 1e-6 * (1 + std::abs(v)); size_t i = by * g.cols + bx;
        if (f) { exact[i] = dyadic(s.scale) && v * n == sum * (double)sc && v * 4 == std::floor(v * 4); eps = exact[i] ? 0 : mag * (sizeof(E) == 4 ? 1e-5 : 1e-6); if (sizeof(E) == 8 && dyadic(s.scale) && !exact[i]) eps = mag * 1e-12; lo[i] = v - eps; hi[i] = v + eps; }
        else { if (dyadic(s.scale)) eps = 0; lo[i] = std::trunc(v + 0.5 - eps); hi[i] = std::trunc(v + 0.5 + eps); double top = (double)std::numeric_limits<E>::max(), low = (double)std::numeric_limits<E>::lowest(); lo[i] = std::max(low, std::min(lo[i], top)); hi[i] = std::max(low, std::min(hi[i], top)); }
    }
    for (uint32_t by = 0; by < g.rows; by++) for (uint32_t bx = 0; bx < g.cols; bx++) {
        double a = 0, b = 0; int n = 0; bool ex = true; g.around(bx, by, [&](uint32_t x, uint32_t y) { a += lo[y * g.cols + x]; b += hi[y * g.cols + x]; ex = ex && exact[y * g.cols + x]; n++; });
        if (f) { a /= n; b /= n; if (!(ex && a * n * 4 == std::floor(a * n * 4) && a * 4 == std::floor(a * 4))) { double e = mag * (sizeof(E) == 4 ? 1e-5 : 1e-12); a -= e; b += e; } } else { a = std::trunc(a / n); b = std::trunc(b / n); }
        if (!fits(px, got, g, bx, by, a, b, s.down)) complain(c, px, got, g, s, bx, by, a, b);
    }
}
static std::vector<Setting> settings(bool all) { std::vector<Setting> r; for (double sc : scales) for (int d = 0; d < 2; d++) { Setting s; s.scale = sc; s.down = d; if (all || sc == 1 || sc == 0.95) r.push_back(s); } return r; }
#elif PROP == 20
template<class E> struct Filter : ThresholdBlockMinMax<E> { Filter(const ConfigLength& l, bool local, const Setting& s) : ThresholdBlockMinMax<E>((float)s.spread, l, local, (float)s.scale, s.down) {} };
template<class E> static void judge(mc::Ctx& c, const std::vector<E>& px, const std::vector<U8>& got, const Grid& g, const Setting& s) {
    bool f = std::is_floating_point<E>::value; float sc = (float)s.scale;
    for (uint32_t by = 0; by < g.rows; by++) for (uint32_t bx = 0; bx < g.cols; bx++) {
        double mn = 1e300, mx = -1e300; g.around(bx, by, [&](uint32_t i, uint32_t j) { for (uint32_t y = g.y0(j); y < g.y1(j); y++) for (uint32_t x = g.x0(i); x < g.x1(i); x++) { mn = std::min(mn, (double)px[y * g.w + x]); mx = std::max(mx, (double)px[y * g.w + x]); } });
        if (mx - mn <= (double)(float)s.spread) { for (uint32_t y = g.y0(by); y < g.y1(by); y++) for (uint32_t x = g.x0(bx); x < g.x1(bx); x++) if (got[y * g.w + x] != 1) c.fail("spread", "%ux%u %s image %s, block %u, spread limit %g: pixel (%u,%u) of a textureless block is %d", g.w, g.h, type_name<E>(), show(px, g.w).c_str(), g.req, s.spread, x, y, got[y * g.w + x]); continue; }
        double mid = (mx + mn) / 2; if (!f) mid = (double)(((int64_t)mx + (int64_t)mn) / 2);
        double v = mid * (double)sc, e = dyadic(s.scale) ? 0 : 1e-6 * (1 + std::abs(v)), lo = v - e, hi = v + e; if (!f) { lo = std::trunc(lo); hi = std::trunc(hi); }
        if (!fits(px, got, g, bx, by, lo, hi, s.down)) complain(c, px, got, g, s, bx, by, lo, hi);
    }
}
static std::vector<Setting> settings(bool all) { std::vector<Setting> r; for (double sp : {-1., 0., 1., 10., 244., 1000.}) for (double sc : scales) for (int d = 0; d < 2; d++) { Setting s; s.scale = sc; s.down = d; s.spread = sp; if (all || sc == 1 || (sc == 0.95 && sp == 10)) r.push_back(s); } return r; }
#elif PROP == 21
template<class E> struct Filter : ThresholdBlockOtsu<E> { Filter(const ConfigLength& l, bool local, const Setting& s) : ThresholdBlockOtsu<E>(s.otsu2, l, s.tuning, s.scale, s.down, local) {} };
template<class E> static void judge(mc::Ctx& c, const std::vector<E>& px, const std::vector<U8>& got, const Grid& g, const Setting& s) {
    std::vector<E> whole(px.size()); for (size_t i = 0; i < px.size(); i++) whole[i] = (E)(U8)px[i];
    for (uint32_t by = 0; by < g.rows; by++) for (uint32_t bx = 0; bx < g.cols; bx++) {
        std::vector<uint32_t> hist(256, 0); g.around(bx, by, [&](uint32_t i, uint32_t j) { for (uint32_t y = g.y0(j); y < g.y1(j); y++) for (uint32_t x = g.x0(i); x < g.x1(i); x++) hist[(U8)px[y * g.w + x]]++; });
        std::vector<double> t = ref_otsu_final(ref_otsu(hist, s.otsu2), s.tuning, s.down, s.scale); bool good = false;
        for (double v : t) good = good || fits(whole, got, g, bx, by, v, v, s.down);
        if (!good) complain(c, px, got, g, s, bx, by, t.front(), t.back());
    }
}
static std::vector<Setting> settings(bool all) { std::vector<Setting> r; for (double tu : {0., 0.05, 1.}) for (double sc : scales) for (int o = 0; o < 2; o++) for (int d = 0; d < 2; d++) { Setting s; s.scale = sc; s.down = d; s.tuning = tu; s.otsu2 = o; if (all || (sc == 1 && tu < 1) || (sc == 0.95 && tu == 0.05)) r.push_back(s); } return r; }
#endif

#if PROP != 18
template<class E> static void one(mc::Ctx& c, Filter<E>& f, const std::vector<E>& px, uint32_t w, uint32_t h, uint32_t req, bool local, const Setting& s, int lin, int lout) {
    Img<E> in(w, h, lin, 3); in.set(px); Img<U8> out(w, h, lout, 5); InputToBinary<Gray<E>>& b = f; b.process(in.g(), out.g()); c.step();
    check_stray(c, out, "output"); check_input(c, in, px, "input"); c.s->checks.fetch_add(px.size()); judge(c, px, out.get(), Grid(w, h, req, local), s);
}
template<class E> static std::vector<E> image(uint32_t w, uint32_t h, int data) {
    std::vector<E> v = pixels<E>(w * h, 1, w * 31 + h + data); bool sg = std::is_signed<E>::value && PROP != 21;
    for (uint32_t i = 0; i < v.size(); i++) { uint32_t r = (uint32_t)(int64_t)(v[i] * 4); double d = data == 0 ? r % 256 : data == 1 ? ((i % w) * 37 + (i / w) * 91) % 256 : data == 2 ? 120 + r % 8 : (r % 3 ? 20 : 230); if (sg) d = data == 1 ? -d - 1 : d - 100; if (!std::is_integral<E>::value && PROP == 21 && data == 0) d = std::min(255.0, d + 0.5); v[i] = (E)(sizeof(E) == 2 && PROP != 21 ? d * 200 : d); }
    return v;
}
template<class E> static void run(mc::Ctx& c) {
    int fam = c.choose(5, "family"); uint32_t w, h; uint64_t tc = sizeof(E) * 2 + std::is_floating_point<E>::value;
    if (fam == 3) {     // blocks of more than 2^17 pixels
        static const uint32_t sh[][3] = {{420, 330, 330}, {430, 340, 111}, {370, 830, 370}}; int q = c.choose(3, "shape"); bool local = c.flag("local blocks"); int data = c.choose(4, "data"); w = sh[q][0]; h = sh[q][1]; c.shard(); std::vector<Setting> ss = settings(true);
        std::vector<E> px = image<E>(w, h, data); c.describe("%ux%u image of %s, block length %u", w, h, type_name<E>(), sh[q][2]);
        for (size_t i = 0; i < ss.size(); i += c.thorough ? 1 : 13) { Filter<E> f(ConfigLength::fixed(sh[q][2]), local, ss[i]); one<E>(c, f, px, w, h, sh[q][2], local, ss[i], 0, 0); c.state(mc::mix(mc::mix(q * 8 + local * 4 + data, i), tc + 7777)); }
        return;
    }
    if (fam == 4) {     // large shapes, blocks of many lengths
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; w = s.w; h = s.h; bool local = c.flag("local blocks"); c.shard(); std::vector<E> px = image<E>(w, h, (w + h) % 4); std::vector<Setting> ss = settings(true); c.describe("%ux%u image of %s, a ladder of block lengths", w, h, type_name<E>()); uint32_t m = std::min(w, h), i = w + h;
        for (uint32_t req : {1u, 2u, 3u, 5u, 8u, 16u, 17u, 31u, 64u, 100u, 255u, 256u}) { if (req > m) break; i++; const Setting& st = ss[i * 7 % ss.size()]; Filter<E> f(ConfigLength::fixed(req), local, st); one<E>(c, f, px, w, h, req, local, st, i % 5, (i + w) % 5); c.state(mc::mix(mc::mix(w * 70000ull + h, req * 2 + local), tc + 8888)); }
        return;
    }
    if (fam == 0) {     // every small image over an alphabet, every length
        static const uint32_t sh[][2] = {{1, 1}, {2, 1}, {1, 3}, {4, 1}, {2, 2}, {5, 1}, {3, 2}, {2, 3}, {7, 1}, {2, 4}, {3, 3}}; int q = c.choose(c.thorough ? 11 : 9, "shape"); w = sh[q][0]; h = sh[q][1]; bool local = c.flag("local blocks");
        std::vector<Setting> ss = settings(c.thorough); const Setting& s = ss[c.choose(ss.size(), "setting")]; c.shard();
        std::vector<E> al; for (double v : {0., 10., 11., 255.}) al.push_back(std::is_signed<E>::value && PROP != 21 ? (E)(v - 11) : PROP == 21 && v == 11 && std::is_floating_point<E>::value ? (E)(10.75) : (E)v); if (w * h > 4) al.erase(al.begin() + 2); if (w * h > 7) al.pop_back();
        uint64_t combos = 1; for (uint32_t i = 0; i < w * h; i++) combos *= al.size();
        c.describe("every %ux%u image over %s, every block length, %s blocks", w, h, show(al, 0).c_str(), local ? "local" : "single");
        std::vector<E> px(w * h);
        for (uint32_t req = 1; req <= std::min(w, h); req++) { Filter<E> f(ConfigLength::fixed(req), local, s); for (uint64_t k = 0; k < combos; k++) { uint64_t z = k; for (auto& p : px) { p = al[z % al.size()]; z /= al.size(); } one<E>(c, f, px, w, h, req, local, s, k % LAYOUTS, k / 5 % LAYOUTS); c.state(mc::mix(mc::hash_bytes(px.data(), px.size() * sizeof(E)), mc::mix(w * 512 + req * 16 + local, tc + (&s - &ss[0]) * 64))); } }
    } else if (fam == 1) {      // every shape and length
        uint32_t n = c.thorough ? 16 : 11; w = 1 + c.choose(n, "width"); h = 1 + c.choose(n, "height"); if (c.flag("large")) { w += n; h += 2; if (w % 3) return; } int data = c.choose(4, "data"); c.shard();
        std::vector<E> px = image<E>(w, h, data); std::vector<Setting> ss = settings(true); uint32_t u = w * 7 + h, m = std::min(w, h); c.describe("%ux%u image of %s, every block length and setting", w, h, type_name<E>());
        for (int rel = 0; rel < 2; rel++) for (uint32_t req = 1; req <= m; req++) for (int local = 0; local < 2; local++) for (const Setting& s : ss) {
            if (!c.thorough && (rel + req + (&s - &ss[0]) + w) % 3) continue;
            // a relative length rounds to the same number of pixels
            ConfigLength cl = rel ? ConfigLength::relative((req + ((int)((w + h) % 3) - 1) * 0.3) / m, 1) : ConfigLength::fixed(req + ((int)((w + h) % 3) - 1) * 0.3);
            int nl = w + h <= 6 && s.scale == 1 ? 25 : 1; for (int l = 0; l < nl; l++) { int q = nl > 1 ? l : (int)((u += 7) % 25); Filter<E> f(cl, local, s); one<E>(c, f, px, w, h, req, local, s, q % 5, q / 5); }
            c.state(mc::mix(mc::mix(w * 64 + h, req * 2 + local), mc::mix(rel * 4 + data, tc + (&s - &ss[0]) * 64)));
        }
    } else {            // histories of images of different sizes on one filter, refused calls and changed settings in between
        int n = c.range(2, c.thorough ? 4 : 3, "calls"); uint32_t req = c.pick({2u, 3u}, "length"); bool rel = c.flag("relative"), local = c.flag("local blocks"); std::vector<Setting> ss = settings(false); const Setting& s = ss[c.choose(ss.size() < 4 ? ss.size() : 4, "setting")]; c.shard();
        static const uint32_t sh[][2] = {{6, 6}, {9, 4}, {3, 11}, {4, 4}, {1, 5}, {13, 2}}; Filter<E> f(rel ? ConfigLength::relative(req * 0.2, 2) : ConfigLength::fixed(req), local, s); uint64_t hs = mc::mix(tc * 8 + req, rel * 2 + local); c.describe("a history of %d images on one filter", n);
        for (int i = 0; i < n; i++) { int q = c.choose(6, "shape"), l = c.choose(2, "kind"); w = sh[q][0]; h = sh[q][1]; uint32_t m = std::min(w, h), r = rel ? (uint32_t)(std::max(req * 0.2 * m, 2.0) + 0.5) : req; bool loc = f.isThresholdFromLocalBlocks(); if (l && i) { loc = !loc; f.setThresholdFromLocalBlocks(loc); }
            std::vector<E> px = image<E>(w, h, i % 4);
            if (r > m) { Img<E> in(w, h, 0, 3); in.set(px); Img<U8> out(w, h, 2, 9); std::vector<U8> b = out.get(); c.ok(throws([&] { f.process(in.g(), out.g()); }), "no-refusal", "an image smaller than a block was not refused"); check_input(c, out, b, "output"); }
            else one<E>(c, f, px, w, h, r, loc, s, l * 2, l * 3); c.state(hs = mc::mix(hs, mc::mix(q * 2 + l, &s - &ss[0]))); }
    }
}
void mc_body(mc::Ctx& c) {
#if PROP == 20
    switch (c.choose(6, "type")) { case 0: run<U8>(c); break; case 1: run<F32>(c); break; case 2: run<U16>(c); break; case 3: run<S16>(c); break; case 4: run<S32>(c); break; default: run<F64>(c); }
#elif PROP == 19
    switch (c.choose(5, "type")) { case 0: run<U8>(c); break; case 1: run<F32>(c); break; case 2: run<U16>(c); break; case 3: run<S16>(c); break; default: run<F64>(c); }
#else
    switch (c.choose(3, "type")) { case 0: run<U8>(c); break; case 1: run<F32>(c); break; default: run<U16>(c); }
#endif
}
#else
// C18: which output pixels react when one input pixel changes, for every shape, length and neighbourhood setting.
enum Kind { MEAN, MINMAX, OTSU };
template<class E> static std::unique_ptr<InputToBinary<Gray<E>>> make(int kind, const ConfigLength& l, bool local) {
    typedef std::unique_ptr<InputToBinary<Gray<E>>> P;
    return kind == MEAN ? P(new ThresholdBlockMean<E>(l, local, 1, true)) : kind == MINMAX ? P(new ThresholdBlockMinMax<E>(0, l, local, 1, true)) : P(new ThresholdBlockOtsu<E>(false, l, 0, 1, true, local));
}
template<class E> static void run(mc::Ctx& c) {
    int kind = c.choose(3, "statistic"); uint32_t n = c.thorough ? 13 : 9, w, h; if (c.choose(2, "family")) { static const uint32_t sh[][2] = {{23, 5}, {5, 23}, {17, 16}, {29, 3}, {3, 31}, {20, 19}, {1, 37}, {37, 1}}; int q = c.choose(8, "shape"); w = sh[q][0]; h = sh[q][1]; } else { w = 1 + c.choose(n, "width"); h = 1 + c.choose(n, "height"); } bool local = c.flag("local blocks"); c.shard();
    uint32_t m = std::min(w, h); c.describe("%s blocks over a %ux%u image of %s: every block length, every single changed pixel", local ? "local" : "single", w, h, type_name<E>());
    for (uint32_t req = 1; req <= m; req++) for (int rel = 0; rel < 2; rel++) {
        Grid g(w, h, req, local); std::unique_ptr<InputToBinary<Gray<E>>> f = make<E>(kind, rel ? ConfigLength::relative((double)req / m, 0) : ConfigLength::fixed(req), local);
        int l = (w + h + req) % 25; Img<E> in(w, h, l % 5, 3); Img<U8> out(w, h, l / 5, 4);
        // a pixel is 1 unless a low pixel is among those that decide it (mean, min-max); for Otsu 1 only when a high pixel is
        for (uint32_t py = 0; py < h; py++) for (uint32_t px = 0; px < w; px++) {
            std::vector<E> v(w * h, (E)100); v[py * w + px] = kind == OTSU ? 200 : 0; if (kind == MEAN && std::is_integral<E>::value) for (auto& e : v) e = e == 100 ? 255 : 0;
            in.set(v); f->process(in.g(), out.g()); c.step(); c.s->checks.fetch_add(v.size()); check_stray(c, out, "output"); check_input(c, in, v, "input"); std::vector<U8> got = out.get();
            for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) {
                bool dep = false; g.around(g.bx(x), g.by(y), [&](uint32_t i, uint32_t j) { dep = dep || (i == g.bx(px) && j == g.by(py)); });
                bool self = x == px && y == py; U8 want;
                if (kind == OTSU) { uint32_t cnt = 0; g.around(g.bx(x), g.by(y), [&](uint32_t i, uint32_t j) { cnt += (g.x1(i) - g.x0(i)) * (g.y1(j) - g.y0(j)); }); want = dep && cnt > 1 && !self; }
                else if (kind == MINMAX) { uint32_t cnt = 0; g.around(g.bx(x), g.by(y), [&](uint32_t i, uint32_t j) { cnt += (g.x1(i) - g.x0(i)) * (g.y1(j) - g.y0(j)); }); want = !dep || self || cnt == 1; }
                else { want = !dep || self; uint32_t bn = 0, nb = 0; g.around(g.bx(x), g.by(y), [&](uint32_t i, uint32_t j) { nb++; if (i == g.bx(px) && j == g.by(py)) bn = (g.x1(i) - g.x0(i)) * (g.y1(j) - g.y0(j)); }); if (dep && std::is_integral<E>::value && 255.0 / bn < 1) continue; }
                if (got[y * w + x] != want) c.fail("block-grid", "%ux%u image of %s, block length %u (%ux%u blocks of %ux%u), %s: after changing input pixel (%u,%u) output pixel (%u,%u) is %d, expected %d", w, h, type_name<E>(), req, g.cols, g.rows, g.bw, g.bh, local ? "local" : "single", px, py, x, y, got[y * w + x], want);
            }
            c.state(mc::mix(mc::mix(w * 64 + h, px * 64 + py), mc::mix(req * 4 + local * 2 + rel, kind * 32 + sizeof(E) * 2 + std::is_floating_point<E>::value)));
        }
    }
    // refused before anything is written, and usable afterwards
    for (double req : {-3., -0.6, 0., 0.3, m + 1., m + 0.5, m + 30., 1e6}) {
        Img<E> in(w, h, 0, 3), in2(w, h, 2, 5); Img<U8> out(w, h, 2, 4); std::vector<U8> b = out.get(); std::vector<E> v = in.get(); std::unique_ptr<InputToBinary<Gray<E>>> f = make<E>(kind, ConfigLength::fixed(req), local);
        c.ok(throws([&] { f->process(in.g(), out.g()); }), "no-refusal", "a block length that does not fit was not refused"); check_input(c, out, b, "output"); check_input(c, in, v, "input"); c.step();
    }
    for (int dw = -1; dw <= 1; dw++) for (int dh = -1; dh <= 1; dh++) { if ((!dw && !dh) || (int)w + dw < 1 || (int)h + dh < 1) continue; Img<E> in(w, h, 0, 3); Img<U8> out(w + dw, h + dh, 0, 4); std::vector<U8> b = out.get(); std::unique_ptr<InputToBinary<Gray<E>>> f = make<E>(kind, ConfigLength::fixed(1), local); c.ok(throws([&] { f->process(in.g(), out.g()); }), "no-refusal", "an output of another shape was not refused"); check_input(c, out, b, "output"); c.step(); }
}
void mc_body(mc::Ctx& c) { switch (c.choose(3, "type")) { case 0: run<F32>(c); break; case 1: run<U8>(c); break; default: run<U16>(c); } }
#endif
