// C15 global thresholds, C16 Otsu's threshold, C17 local mean: exhaustive over small inputs, settings, layouts, histories.
#include "binary_ops.h"
#include "norm_ref.h"
#include "otsu_ref.h"
using namespace boofcv;
#ifndef PROP
#define PROP 15
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
const char* mc_property = "C" STR(PROP);
template<class E> struct TypeCode { static const int v = sizeof(E) * 4 + std::is_floating_point<E>::value * 2 + std::is_signed<E>::value; };
static const double scales[] = {1, 0.5, 0.95, 1.1, 2};

#if PROP == 15
template<class E> static void fixed_all(mc::Ctx& c, const std::vector<E>& vals, const std::vector<E>& thr, uint32_t w, uint32_t h, int lin, int lout, bool filter) {
    Img<E> in(w, h, lin, 3); in.set(vals);
    for (E t : thr) for (int down = 0; down < 2; down++) {
        Img<U8> out(w, h, lout, (uint32_t)down + 7); if (lout == 0) out.gray.reset(new Gray<U8>(h + 1, w));
        if (filter) { GlobalFixedBinaryFilter<E> f(t, down); InputToBinary<Gray<E>>& b = f; b.process(in.g(), out.g()); } else ThresholdOps::threshold(in.g(), t, down, out.g());
        std::vector<U8> want(vals.size()); for (size_t i = 0; i < vals.size(); i++) want[i] = down ? vals[i] <= t : vals[i] > t;
        check_output(c, out, want, "threshold"); check_input(c, in, vals, "input"); c.step();
        c.state(mc::mix(mc::hash_bytes(&t, sizeof t), mc::mix(w * 64 + h, TypeCode<E>::v * 2 + down)));
    }
}
template<class E> static std::vector<E> alphabet() {
    std::vector<E> v; typedef std::numeric_limits<E> L;
    if (sizeof(E) == 1) { for (int i = 0; i < 256; i++) v.push_back((E)i); return v; }
    for (E b : {L::lowest(), (E)(L::lowest() / 2), (E)0, (E)(L::max() / 2), L::max(), (E)100, (E)256, (E)40000}) for (int d = -2; d <= 2; d++) v.push_back(std::is_floating_point<E>::value ? (E)(b + (E)(d * 0.25)) : (E)((int64_t)b + d));
    if (std::is_floating_point<E>::value) { v.push_back(std::nextafter((E)1, (E)2)); v.push_back(1); v.push_back(L::min()); v.push_back(-L::min()); v.push_back(L::infinity()); v.push_back(-L::infinity()); }
    while (v.size() < 64) v.push_back((E)v.size());
    return v;
}
template<class E> static void fixed(mc::Ctx& c) {
    int fam = c.choose(3, "family"); bool filter = c.flag("filter object"); std::vector<E> a = alphabet<E>();
    if (fam == 2) { const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; c.shard(); std::vector<E> v = pixels<E>(s.w * s.h, 1, s.w * 16 + s.h), thr = {v[0], v[v.size() / 2]}; c.describe("%ux%u image of %s", s.w, s.h, type_name<E>()); int l = (int)((s.w * 3 + s.h) % 25); fixed_all<E>(c, v, thr, s.w, s.h, l % LAYOUTS, l / LAYOUTS, filter); fixed_all<E>(c, v, thr, s.w, s.h, 0, 0, filter); return; }
    if (fam == 0) { int l = c.choose(LAYOUTS * LAYOUTS, "layouts"); c.shard(); c.describe("every %s value of the alphabet against every threshold, layouts %s/%s", type_name<E>(), layout_name[l % LAYOUTS], layout_name[l / LAYOUTS]);
        uint32_t w = 8 + l % 5; a.resize(a.size() / w * w); std::vector<E> thr = alphabet<E>(); fixed_all<E>(c, a, thr, w, a.size() / w, l % LAYOUTS, l / LAYOUTS, filter); }
    else {      // every shape
        uint32_t w = c.choose(c.thorough ? 20 : 9, "width"), h = c.choose(c.thorough ? 20 : 9, "height"); int l = c.choose(LAYOUTS * LAYOUTS, "layouts"); c.shard();
        std::vector<E> v = pixels<E>(w * h, 1, w * 16 + h), thr; if (v.empty()) { if (l) return; thr.push_back(3); } else { thr.push_back(v[0]); thr.push_back(v[v.size() / 2]); }
        c.describe("%ux%u image of %s", w, h, type_name<E>()); fixed_all<E>(c, v, thr, w, h, l % LAYOUTS, l / LAYOUTS, filter);
    }
}
// The automatic filter: the classification must be that of an optimal threshold of the histogram over the value range
template<class E> static void otsu(mc::Ctx& c) {
    struct R { double lo, hi; }; static const R ranges[] = {{0, 255}, {0, 7}, {3, 10}, {100, 107}, {10, 10}, {200, 255}, {-8, 7}, {-20, -5}, {-1, 30}};
    static const uint32_t sh[][2] = {{1, 1}, {2, 1}, {1, 3}, {2, 2}, {5, 1}, {3, 2}, {7, 1}, {4, 2}};
    const R& r = ranges[c.choose(std::is_signed<E>::value ? 9 : 6, "range")]; bool down = c.flag("down"); int q = c.choose(c.thorough ? 8 : 7, "shape"), n = (int)(sh[q][0] * sh[q][1]);
    std::vector<E> al; for (double v : {r.lo, r.lo + 1, (r.lo + r.hi) / 2, r.hi}) if (v <= r.hi && std::find(al.begin(), al.end(), (E)v) == al.end()) al.push_back((E)v);
    if (n > 6 && al.size() > 3) al.erase(al.begin() + 1);
    c.shard(); uint64_t combos = 1; for (int i = 0; i < n; i++) combos *= al.size();
    c.describe("automatic filter over every %ux%u image with values %s of the range %g..%g, %s", sh[q][0], sh[q][1], show(al, 0).c_str(), r.lo, r.hi, down ? "down" : "up");
    std::vector<E> px(n); GlobalOtsuBinaryFilter<E> used((E)r.lo, (E)r.hi, down);
    for (uint64_t k = 0; k < combos; k++) {
        uint64_t z = k; for (auto& p : px) { p = al[z % al.size()]; z /= al.size(); }
        int l = (int)(k % (LAYOUTS * LAYOUTS)); Img<E> in(sh[q][0], sh[q][1], l % LAYOUTS, 3); in.set(px); Img<U8> out(sh[q][0], sh[q][1], l / LAYOUTS, 5);
        GlobalOtsuBinaryFilter<E> fresh((E)r.lo, (E)r.hi, down); InputToBinary<Gray<E>>& f = k % 3 ? fresh : used; f.process(in.g(), out.g());
        std::vector<uint32_t> hist((size_t)(r.hi - r.lo + 1), 0); for (auto p : px) hist[(size_t)(p - r.lo)]++;
        std::vector<double> ts = ref_otsu_final(ref_otsu(hist, false), 0, true, 1); bool good = false; std::vector<U8> got = out.get(), want;
        check_stray(c, out, "output"); check_input(c, in, px, "input"); c.step(); c.s->checks.fetch_add(1); c.state(mc::mix(mc::hash_bytes(px.data(), n * sizeof(E)), mc::mix(mc::hash_bytes(&r, sizeof r), TypeCode<E>::v * 2 + down)));
        for (double t : ts) { want.assign(n, 0); for (int i = 0; i < n; i++) want[i] = down ? px[i] <= t + r.lo : px[i] > t + r.lo; if (want == got) good = true; }
        if (!good) c.fail("otsu-filter", "pixels %s in range %g..%g, %s: output %s, expected %s (threshold %g)", show(px, sh[q][0]).c_str(), r.lo, r.hi, down ? "down" : "up", show(got, sh[q][0]).c_str(), show(want, sh[q][0]).c_str(), ts[0] + r.lo);
        E t1 = ThresholdOps::computeOtsu(in.g(), (E)r.lo, (E)r.hi), t2 = ThresholdOps::computeOtsu(in.g(), (E)r.lo, (E)r.hi, true); good = false; for (double t : ts) good = good || t1 == (E)(t + r.lo);
        if (!good) c.fail("otsu-threshold", "pixels %s in range %g..%g: threshold %g, expected %g", show(px, 0).c_str(), r.lo, r.hi, dv(t1), ts[0] + r.lo);
        ts = ref_otsu_final(ref_otsu(hist, true), 0, true, 1); good = false; for (double t : ts) good = good || t2 == (E)(t + r.lo);
        if (!good) c.fail("otsu-threshold", "pixels %s in range %g..%g: second variant's threshold %g, expected %g", show(px, 0).c_str(), r.lo, r.hi, dv(t2), ts[0] + r.lo);
    }
}
// images of more than 2^17 pixels, every way of dividing them into groups of very different sizes
template<class E> static void large(mc::Ctx& c) {
    static const double part[] = {0.0001, 0.01, 0.2, 0.5}; int k = c.choose(c.thorough ? 256 : 64, "proportions"); bool down = c.flag("down"); c.shard(); c.describe("automatic filter on a 640x410 image of %s, proportions %d", type_name<E>(), k);
    uint32_t w = 640, h = 410, n = w * h; const E val[] = {(E)10, (E)20, (E)100, (E)200, (E)210}; std::vector<E> px; double sum = 0; for (int i = 0; i < 4; i++) sum += part[k >> (2 * i) & 3]; sum += 0.3;
    for (int i = 0; i < 5; i++) { uint32_t m = (uint32_t)(n * (i < 4 ? part[k >> (2 * i) & 3] : 0.3) / sum); for (uint32_t q = 0; q < m && px.size() < n; q++) px.push_back(val[i]); } while (px.size() < n) px.push_back(val[2]);
    std::vector<uint32_t> hist(256, 0); for (auto p : px) hist[(size_t)p]++; Img<E> in(w, h, 0, 3); in.set(px); c.step(); c.state(mc::mix(mc::mix(k, down), TypeCode<E>::v + 900));
    for (int o2 = 0; o2 < 2; o2++) { OtsuRef r = ref_otsu(hist, o2); E t = ThresholdOps::computeOtsu(in.g(), (E)0, (E)255, o2); bool good = false; std::vector<double> ts = ref_otsu_final(r, 0, true, 1); for (double x : ts) good = good || t == (E)x; c.s->checks.fetch_add(1);
        if (!good) c.fail("otsu-threshold", "640x410 image with counts %u %u %u %u %u of values 10 20 100 200 210: threshold %g, expected %g", hist[10], hist[20], hist[100], hist[200], hist[210], dv(t), ts[0]); }
    GlobalOtsuBinaryFilter<E> f((E)0, (E)255, down); Img<U8> out(w, h, 0, 5); f.process(in.g(), out.g()); std::vector<double> ts = ref_otsu_final(ref_otsu(hist, false), 0, true, 1); std::vector<U8> got = out.get(), want(n); bool good = false;
    for (double t : ts) { for (uint32_t i = 0; i < n; i++) want[i] = down ? px[i] <= t : px[i] > t; good = good || want == got; } if (!good) c.fail("otsu-filter", "640x410 image with counts %u %u %u %u %u of values 10 20 100 200 210 is not split at the threshold %g", hist[10], hist[20], hist[100], hist[200], hist[210], ts[0]);
}
template<class E> static void run(mc::Ctx& c) { switch (c.choose(3, "filter kind")) { case 0: fixed<E>(c); break; case 1: otsu<E>(c); break; default: large<E>(c); } }
void mc_body(mc::Ctx& c) { switch (c.choose(6, "type")) { case 0: run<U8>(c); break; case 1: run<S16>(c); break; case 2: run<U16>(c); break; case 3: run<S32>(c); break; case 4: run<F32>(c); break; default: run<F64>(c); } }
#elif PROP == 16
static void verify(mc::Ctx& c, ComputeOtsu& o, const std::vector<uint32_t>& h, const OtsuRef& r, bool otsu2, double tuning, bool down, double scale) {
    std::vector<double> want = ref_otsu_final(r, tuning, down, scale);
    c.s->checks.fetch_add(2); c.step();
    if (!ref_otsu_accepts(r, tuning, down, scale, o.threshold))
        c.fail("otsu", "histogram %s, %s variant, tuning %g, scale %g, %s: threshold %.9g, expected %.9g", show(h, 0).c_str(), otsu2 ? "second" : "standard", tuning, scale, down ? "down" : "up", o.threshold, want[0]);
    if (std::abs(o.variance - (r.variance + 0.001)) > 1e-9 * (1e-3 + r.variance)) c.fail("variance", "histogram %s: variance %.12g, expected %.12g", show(h, 0).c_str(), o.variance, r.variance + 0.001);
}
static const double tunings[] = {0, 0.05, 0.5, 1, 3, 50};
static void settings(mc::Ctx& c, const std::vector<uint32_t>& h, std::vector<ComputeOtsu>& used) {
    GrowArray<uint32_t> g((uint32_t)h.size()); uint32_t total = 0; for (size_t i = 0; i < h.size(); i++) { g[i] = h[i]; total += h[i]; }
    c.state(mc::hash_bytes(h.data(), h.size() * 4)); size_t k = 0;
    for (int o2 = 0; o2 < 2; o2++) { OtsuRef r = ref_otsu(h, o2); for (double tu : tunings) for (double sc : scales) for (int down = 0; down < 2; down++, k++) {
        if (used.size() <= k) used.push_back(ComputeOtsu(o2, tu, down, sc));
        used[k].compute(g, total); verify(c, used[k], h, r, o2, tu, down, sc);      // an object that has seen every histogram before
    }
    ComputeOtsu plain(o2, true); plain.compute(g, total); verify(c, plain, h, r, o2, 0, true, 1); }
    for (size_t i = 0; i < h.size(); i++) if (g[i] != h[i]) c.fail("input-changed", "the histogram was changed");
}
void mc_body(mc::Ctx& c) {
    int fam = c.choose(4, "family"); std::vector<ComputeOtsu> used;
    if (fam == 0) {     // every histogram up to a length and count
        int n = c.range(1, c.thorough ? 7 : 6, "length"), m = (n <= 4 ? 5 : n == 5 ? 4 : n == 6 ? 3 : 2) + c.thorough; uint32_t first = c.choose(m, "count"), second = n > 1 ? c.choose(m, "count") : 0, third = n > 2 ? c.choose(m, "count") : 0; c.shard();
        c.describe("every histogram of length %d starting with %u %u %u and counts below %d", n, first, second, third, m);
        std::vector<uint32_t> h(n, 0); h[0] = first; if (n > 1) h[1] = second; if (n > 2) h[2] = third;
        for (;;) { settings(c, h, used); int i = 3; while (i < n && ++h[i] == (uint32_t)m) h[i++] = 0; if (i >= n) break; }
    } else if (fam == 1) {      // long histograms with few occupied bins
        static const uint32_t len[] = {16, 100, 256, 1000}; uint32_t n = len[c.choose(4, "length")]; std::vector<uint32_t> pos = {0, 1, 2, n / 2 - 1, n / 2, n - 2, n - 1}, cnt = {1, 2, 3, 1000};
        int a = c.choose(7, "bin"), b = c.choose(7, "bin"); if (b < a) return; c.shard();
        c.describe("histograms of length %u with counts in bins %u, %u and one more", n, pos[a], pos[b]);
        for (int d = b; d < 7; d++) for (uint32_t x : cnt) for (uint32_t y : cnt) for (uint32_t z : cnt) { if ((a == b && y != 1) || (d == b && z != 1)) continue; std::vector<uint32_t> h(n, 0); h[pos[a]] = x; if (b > a) h[pos[b]] = y; if (d > b) h[pos[d]] = z; if (n > 256 && (x + y + z) % 5) continue; settings(c, h, used); }
    } else if (fam == 3) {      // groups of very different sizes, up to those of large images: several peaks of the variance, wide sums
        static const uint32_t len[] = {8, 256, 16, 300}; uint32_t n = len[c.choose(c.thorough ? 4 : 2, "length")]; const std::vector<uint32_t> pos = {0, 1, n / 2 - 1, n / 2, n - 2, n - 1}; std::vector<uint32_t> cnt = {1, 3, 100, 70000, 1000003}; if (c.thorough) { cnt.push_back(17); cnt.push_back(1u << 29); }
        int mask = c.choose(64, "bins"), bins = __builtin_popcount(mask); if (bins < 2 || bins > 4) return; c.shard(); c.describe("histograms of length %u with large counts in %d bins (mask %d)", n, bins, mask);
        uint64_t combos = 1; for (int i = 0; i < bins; i++) combos *= cnt.size();
        for (uint64_t k = 0; k < combos; k++) { std::vector<uint32_t> h(n, 0); uint64_t z = k, total = 0; for (int i = 0; i < 6; i++) if (mask >> i & 1) { total += h[pos[i]] = cnt[z % cnt.size()]; z /= cnt.size(); } if (total >> 32) continue; settings(c, h, used); }
    } else {            // histories of histograms of different lengths, and a direction changed in between, against the definition
        int n = c.range(1, c.thorough ? 4 : 3, "calls"); bool o2 = c.flag("variant"); double tu = tunings[c.choose(4, "tuning")], sc = scales[c.choose(5, "scale")]; bool down = c.flag("down");
        static const std::vector<std::vector<uint32_t>> hs = {{0, 0, 0, 0}, {0, 5, 0, 0}, {3, 0, 0, 4}, {1, 2, 3, 4, 5, 6}, {0}, {7}, {0, 0, 0, 0, 0, 0, 0, 9, 1, 0, 0, 0, 0, 0, 2}, {1, 0, 0, 1}};
        c.shard(); ComputeOtsu o(o2, tu, down, sc); c.describe("a history of %d histograms on one object", n);
        for (int i = 0; i < n; i++) { const std::vector<uint32_t>& h = hs[c.choose(8, "histogram")]; if (c.flag("turn direction")) { down = !down; o.down = down; }
            GrowArray<uint32_t> g((uint32_t)h.size()); uint32_t total = 0; for (size_t k = 0; k < h.size(); k++) { g[k] = h[k]; total += h[k]; }
            o.compute(g, total); verify(c, o, h, ref_otsu(h, o2), o2, tu, down, sc); c.state(mc::mix(mc::hash_bytes(h.data(), h.size() * 4), mc::mix(i * 4 + o2 * 2 + down, (uint64_t)(tu * 100) * 1000 + (uint64_t)(sc * 100)))); }
    }
}
#else
// what local-mean thresholding must give; pixels whose comparison hangs on rounding come back as 2 (either is right)
template<class E> static std::vector<U8> ref_local(const std::vector<E>& px, uint32_t w, uint32_t h, uint32_t radius, float scale, bool down) {
    typedef typename TypeInfo<E>::signed_type S; std::vector<S> box(2 * radius + 1, (S)1); bool f = std::is_floating_point<E>::value;
    std::vector<E> m = ref_normalized(ref_normalized(px, w, h, box, radius, false), w, h, box, radius, true); std::vector<U8> r(px.size());
    bool dyadic = scale == 1 || scale == 2 || scale == 0.5f; double tol = f ? magnitude(px) * (sizeof(E) == 4 ? 4e-5 : 1e-10) : dyadic ? 0 : magnitude(px) * 1e-6;
    bool flat = true; for (auto p : px) flat = flat && p == px[0];
    if (f && flat && w <= 2 && h <= 2 && dyadic && px[0] == std::floor(px[0]) && std::abs((double)px[0]) < 1000) tol = 0;        // exact in floating point too
    for (size_t i = 0; i < px.size(); i++) { double a = down ? (double)px[i] : (double)px[i] * scale, b = down ? (double)m[i] * scale : (double)m[i]; r[i] = tol > 0 && std::abs(a - b) <= tol ? 2 : down ? a <= b : a > b; }
    return r;
}
template<class E> static void compare(mc::Ctx& c, Img<U8>& out, const std::vector<U8>& want, const std::vector<E>& px, uint32_t w, const char* what) {
    check_stray(c, out, "output"); std::vector<U8> got = out.get(); c.s->checks.fetch_add(got.size());
    for (size_t i = 0; i < got.size(); i++) if (want[i] == 2 ? got[i] > 1 : got[i] != want[i]) c.fail("local-mean", "%s: pixel (%u,%u) of %s is %d, expected %d", what, (unsigned)(i % w), (unsigned)(i / w), show(px, w).c_str(), got[i], want[i]);
}
template<class E> static void one(mc::Ctx& c, const std::vector<E>& px, uint32_t w, uint32_t h, const ConfigLength& len, uint32_t radius, float scale, bool down, int lin, int lout, int l1, int l2, LocalMeanBinaryFilter<E>* used) {
    Img<E> in(w, h, lin, 3); in.set(px); Img<U8> out(w, h, lout, 5); char what[160]; snprintf(what, sizeof what, "%ux%u %s, radius %u, scale %g, %s", w, h, type_name<E>(), radius, scale, down ? "down" : "up"); c.step();
    std::vector<U8> want = ref_local(px, w, h, radius, scale, down);
    if (used) used->process(in.g(), out.g());
    else { Img<E> s1(w, h, l1, 6), s2(w, h, l2, 7); if (l1 == 0) s1.gray.reset(new Gray<E>(h, w + 1)); if (l2 == 0) s2.gray.reset(new Gray<E>(1, 1)); if (lout == 0) out.gray.reset(new Gray<U8>(h + 2, w));
        ThresholdOps::localMean(in.g(), out.g(), len, scale, down, s1.g(), s2.g()); check_stray(c, s1, "storage"); check_stray(c, s2, "storage"); }
    compare(c, out, want, px, w, what); check_input(c, in, px, "input");
}
template<class E> static void run(mc::Ctx& c) {
    int fam = c.choose(4, "family"); uint32_t w, h;
    if (fam == 3) {
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; w = s.w; h = s.h; c.shard(); std::vector<E> px = pixels<E>(w * h, 1, w * 31 + h); c.describe("%ux%u image of %s", w, h, type_name<E>()); int i = 0; bool huge = (uint64_t)w * h > 20000;
        for (int len : {3, 5, 2, 9, 20}) for (int down = 0; down < 2; down++) { i++; if (huge && len != 3) continue; one<E>(c, px, w, h, ConfigLength::fixed(len), len / 2, (float)scales[i % 3], down, (w + i) % 5, (h + i) % 5, i % 5, (w + h) % 5, nullptr); c.state(mc::mix(mc::mix(w * 70000ull + h, i), TypeCode<E>::v + 300)); }
        return;
    }
    if (fam == 0) {     // every small image over an alphabet
        static const uint32_t sh[][2] = {{1, 1}, {3, 1}, {1, 4}, {2, 2}, {5, 1}, {3, 2}, {2, 3}, {6, 1}, {7, 1}, {2, 4}}; int q = c.choose(c.thorough ? 10 : 8, "shape"); w = sh[q][0]; h = sh[q][1]; int si = c.choose(5, "scale"); bool down = c.flag("down"); int len = c.range(2, 5, "length"); c.shard();
        std::vector<E> al; for (double v : {0., 10., 11., 255.}) al.push_back(std::is_signed<E>::value ? (E)(v - 11) : (E)v); if (w * h > 6) al.pop_back();
        c.describe("every %ux%u image over %s, length %d, scale %g", w, h, show(al, 0).c_str(), len, scales[si]);
        uint64_t combos = 1; for (uint32_t i = 0; i < w * h; i++) combos *= al.size(); std::vector<E> px(w * h); LocalMeanBinaryFilter<E> f(ConfigLength::fixed(len), (float)scales[si], down);
        for (uint64_t k = 0; k < combos; k++) { uint64_t z = k; for (auto& p : px) { p = al[z % al.size()]; z /= al.size(); } one<E>(c, px, w, h, ConfigLength::fixed(len), len / 2, (float)scales[si], down, k % LAYOUTS, (k / 5) % LAYOUTS, 0, 0, &f); c.state(mc::mix(mc::hash_bytes(px.data(), px.size() * sizeof(E)), mc::mix(w * 64 + si * 8 + len, TypeCode<E>::v * 2 + down))); }
    } else if (fam == 1) {      // every shape, length, layout
        uint32_t n = c.thorough ? 12 : 7; w = 1 + c.choose(n, "width"); h = 1 + c.choose(n, "height"); int data = 1 + c.choose(2, "data"); c.shard(); std::vector<E> px = pixels<E>(w * h, data, w * 31 + h); uint32_t u = w + h * 5;
        c.describe("%ux%u image of %s, every length, scale, direction", w, h, type_name<E>());
        for (int rel = 0; rel < 3; rel++) for (int len = 2; len <= 2 * (int)n + 3; len++) for (int si = 0; si < 5; si++) for (int down = 0; down < 2; down++) {
            double frac = len * 0.17; uint32_t m = std::min(w, h); ConfigLength cl = rel == 0 ? ConfigLength::fixed(len) : rel == 1 ? ConfigLength::relative(frac, 2) : ConfigLength::fixed(len + 0.5);
            int size = rel == 0 ? len : rel == 2 ? len + 1 : (int)(std::max(frac * m, 2.0) + 0.5);
            bool all = w + h <= 5 && len == 3 && si == 2 && rel == 0; int nl = all ? 625 : 2;
            for (int l = 0; l < nl; l++) { int q = all ? l : l == 0 ? 0 : (int)((u += 101) % 625); one<E>(c, px, w, h, cl, size / 2, (float)scales[si], down, q % 5, q / 5 % 5, q / 25 % 5, q / 125, nullptr); }
            c.state(mc::mix(mc::mix(w * 64 + h, rel * 64 + len), mc::mix(si * 2 + down, TypeCode<E>::v * 4 + data)));
        }
    } else {            // histories of images of different sizes, and refused calls, on one filter
        int n = c.range(2, c.thorough ? 4 : 3, "calls"); int len = c.pick({2, 5}, "length"); bool rel = c.flag("relative"), down = c.flag("down"); float sc = (float)scales[c.choose(2, "scale") * 2]; c.shard();
        static const uint32_t sh[][2] = {{3, 3}, {7, 2}, {2, 7}, {5, 6}, {1, 1}, {4, 4}}; LocalMeanBinaryFilter<E> f(rel ? ConfigLength::relative(len * 0.2, 2) : ConfigLength::fixed(len), sc, down); c.describe("a history of %d images on one local-mean filter", n); uint64_t hs = TypeCode<E>::v;
        for (int i = 0; i < n; i++) { int q = c.choose(6, "shape"); int l = c.choose(2, "layout") * 2; w = sh[q][0]; h = sh[q][1]; int size = rel ? (int)(std::max(len * 0.2 * std::min(w, h), 2.0) + 0.5) : len; one<E>(c, pixels<E>(w * h, 1, q * 3 + i), w, h, f.regionWidth, size / 2, sc, down, l, l, 0, 0, &f); c.state(hs = mc::mix(hs, mc::mix(q * 2 + l, mc::mix(len, rel * 4 + down)))); }
    }
}
static void refusals(mc::Ctx& c) {
    c.shard(); c.step(); c.describe("local windows without a pixel are refused");
    for (double len : {-1., 0., 0.4, 1., 1.4}) { Img<U8> in(5, 4, 0, 3), out(5, 4, 0, 4); std::vector<U8> b = in.get(); LocalMeanBinaryFilter<U8> f(ConfigLength::fixed(len), 1, true); c.ok(throws([&] { f.process(in.g(), out.g()); }), "no-refusal", "a window of radius zero or undefined was not refused"); check_input(c, in, b, "input");
        f.regionWidth = ConfigLength::fixed(3); one<U8>(c, b, 5, 4, f.regionWidth, 1, 1, true, 0, 0, 0, 0, &f); }
}
void mc_body(mc::Ctx& c) { switch (c.choose(7, "type")) { case 0: run<U8>(c); break; case 1: run<S16>(c); break; case 2: run<U16>(c); break; case 3: run<S32>(c); break; case 4: run<F32>(c); break; case 5: run<F64>(c); break; default: refusals(c); } }
#endif
