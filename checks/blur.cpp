// C13 mean blur, C14 Gaussian blur against their definitions on the whole grid of shapes, radii and layouts.
#include "image_blur.h"
#include "norm_ref.h"
using namespace boofcv;
#ifndef PROP
#define PROP 13
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
const char* mc_property = "C" STR(PROP);
template<class E> static std::vector<E> data_of(uint32_t n, int data, uint32_t seed) {
    if (data == 3) return std::vector<E>(n, (E)(sizeof(E) == 1 ? 255 : sizeof(E) == 2 && !std::is_signed<E>::value ? 65535 : -12345));
    return pixels<E>(n, data, seed);
}
static const uint32_t big[][2] = {{21, 2}, {3, 22}, {24, 23}, {40, 1}, {1, 40}, {9, 14}, {14, 9}, {70, 2}, {2, 70}};
constexpr int BIG = 9;

#if PROP == 13
enum Code { H, V, BLUR };
template<class E> static void one(mc::Ctx& c, int code, uint32_t w, uint32_t h, uint32_t r, int lin, int lout, int lwork, int data) {
    typedef typename TypeInfo<E>::signed_type S;
    Img<E> in(w, h, lin, 3); std::vector<E> px = data_of<E>(w * h, data, w * 31 + h), want; in.set(px);
    Img<E> out(w, h, lout, 11), work(w, h, lwork, 5); std::vector<S> box(2 * r + 1, (S)1);
    if (code == H) { ConvolveImageMean::horizontal(in.g(), out.g(), r); want = ref_normalized(px, w, h, box, r, false); }
    else if (code == V) { ConvolveImageMean::vertical(in.g(), out.g(), r); want = ref_normalized(px, w, h, box, r, true); }
    else {
        if (lwork == 0) work.gray.reset(new Gray<E>(1, h + 2));
        if (lout == 0) out.gray.reset(new Gray<E>(h + 1, w));
        BlurImageOps::mean(in.g(), out.g(), r, work.g()); check_stray(c, work, "work");
        want = ref_normalized(ref_normalized(px, w, h, box, r, false), w, h, box, r, true);
    }
    check_output(c, out, want, "mean", ftol(px)); check_input(c, in, px, "input"); c.step();
}
// two calls in a row, every ordered pair of settings: the second must not be affected by the first
template<class E> static void pairs(mc::Ctx& c) {
    struct P { int code; uint32_t w, h, r; int data; }; static std::vector<P> all;
    if (all.empty()) for (int code = 0; code < 3; code++) for (auto& s : {std::pair<uint32_t, uint32_t>(6, 5), {5, 6}, {6, 9}, {12, 3}}) for (uint32_t r : {1u, 2u, 3u, 6u}) for (int data = 1; data < 3; data++) all.push_back({code, s.first, s.second, r, data});
    const P& a = all[c.choose((uint32_t)all.size(), "first call")]; c.shard(); c.describe("mean %d of %ux%u radius %u before every other call on %s", a.code, a.w, a.h, a.r, type_name<E>());
    for (auto& b : all) { one<E>(c, a.code, a.w, a.h, a.r, 0, 0, 0, a.data); one<E>(c, b.code, b.w, b.h, b.r, 0, 0, 0, b.data); c.state(mc::mix(mc::mix(&a - &all[0], &b - &all[0]), sizeof(E) * 2 + std::is_floating_point<E>::value + 5000)); }
}
template<class E> static void run(mc::Ctx& c) {
    if (c.flag("pairs of calls")) { pairs<E>(c); return; }
    int code = c.choose(3, "code"), fam = c.choose(3, "family"); uint32_t w, h, maxr;
    if (fam == 2) {
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; w = s.w; h = s.h; c.shard(); c.describe("mean %d of a %ux%u image of %s", code, w, h, type_name<E>()); int i = 0;
        for (uint32_t r : {1u, 2u, 3u, 5u, 8u, 16u, 33u}) { i++; if ((uint64_t)w * h > 20000 && r > 2) break; one<E>(c, code, w, h, r, (w + i) % LAYOUTS, (h + i) % LAYOUTS, (w + h + i) % LAYOUTS, 1 + i % 2); c.state(mc::mix(mc::mix(w * 70000ull + h, r), mc::mix(code, sizeof(E) * 2 + std::is_floating_point<E>::value + 300))); }
        return;
    }
    if (fam == 0) { uint32_t n = c.thorough ? 11 : 9; w = 1 + c.choose(n, "width"); h = 1 + c.choose(n, "height"); maxr = 7; } else { int q = c.choose(BIG, "shape"); w = big[q][0]; h = big[q][1]; maxr = c.thorough ? 48 : 24; }
    int data = 1 + c.choose(3, "data"); c.shard(); uint32_t u = w * 3 + h;
    c.describe("%s mean, %ux%u image of %s, every radius up to %u", code == H ? "horizontal" : code == V ? "vertical" : "blur", w, h, type_name<E>(), maxr);
    for (uint32_t r = 1; r <= maxr; r++) {
        c.state(mc::mix(mc::mix(w * 128 + h, r * 4 + code), mc::mix(data, sizeof(E) * 2 + std::is_floating_point<E>::value)));
        bool all = fam == 0 && w + h <= 9 && r <= 3 && data == 1; int nl = all ? LAYOUTS * LAYOUTS : 2;
        for (int l = 0; l < nl; l++) { int q = all ? l : l == 0 ? 0 : 1 + (int)((u += 7) % 24); one<E>(c, code, w, h, r, q % LAYOUTS, q / LAYOUTS, (q + l) % LAYOUTS, data); }
    }
}
// shapes of millions of pixels in one direction
template<class E> static void extreme(mc::Ctx& c) {
    int q = c.choose(4, "shape"), code = c.choose(3, "code"); uint32_t r = 1 + c.choose(2, "radius"); c.shard(); static const uint32_t sh[][2] = {{2200000, 6}, {6, 2200000}, {70000, 9}, {9, 70000}}; c.describe("mean %d of %ux%u radius %u on %s", code, sh[q][0], sh[q][1], r, type_name<E>());
    c.state(mc::mix(q * 8 + code * 2 + r, sizeof(E) + 9000)); one<E>(c, code, sh[q][0], sh[q][1], r, 0, 0, 0, 1);
}
template<class E> static void refusals(mc::Ctx& c) {
    c.shard(); c.step(); c.describe("radius 0 and shape mismatch");
    Gray<E> in(4, 3), out(4, 3), work(4, 3); c.ok(throws([&] { BlurImageOps::mean(in, out, 0, work); }), "no-refusal", "radius 0 was not refused");
    for (uint32_t w = 3; w < 6; w++) for (uint32_t h = 2; h < 5; h++) { if (w == 4 && h == 3) continue; Gray<E> o(w, h); c.ok(throws([&] { ConvolveImageMean::horizontal(in, o, 1); }) && throws([&] { ConvolveImageMean::vertical(in, o, 1); }) && o.width == w && o.height == h, "no-refusal", "an output of another shape was not refused"); }
}
#else
template<class E> static void one(mc::Ctx& c, uint32_t w, uint32_t h, double sigma, int width, int lin, int lout, int lwork, int data) {
    typedef typename TypeInfo<E>::signed_type S;
    if (width == 1 && sigma <= 0) return;       // no sigma is defined for a single pixel: refused or the identity, both fine
    Img<E> in(w, h, lin, 3); std::vector<E> px = data_of<E>(w * h, data, w * 31 + h), want; in.set(px);
    Img<E> out(w, h, lout, 11), work(w, h, lwork, 5); std::vector<S> k;
    if (lwork == 0) work.gray.reset(new Gray<E>(1, h + 2));
    if (lout == 0) out.gray.reset(new Gray<E>(h + 1, w));
    bool legal = ref_gaussian<S>(sigma, width, [&] { return FactoryKernel::gaussian1D<S>(sigma, width); }, k);
    if (!legal) { c.ok(throws([&] { BlurImageOps::gaussian(in.g(), out.g(), sigma, width, work.g()); }), "no-refusal", "a blur without width and sigma was not refused"); check_input(c, in, px, "input"); return; }
    BlurImageOps::gaussian(in.g(), out.g(), sigma, width, work.g());
    check_stray(c, work, "work");
    int off = (int)k.size() / 2;
    want = ref_normalized(ref_normalized(px, w, h, k, off, false), w, h, k, off, true);
    check_output(c, out, want, "gaussian", 4 * ftol(px)); check_input(c, in, px, "input"); c.step();
    if (k.size() % 2 == 1 && lin == 0 && lout == 0) {       // flipping the input flips the output
        std::vector<E> a = out.get(), fl(px.size()); for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) fl[y * w + x] = px[(h - 1 - y) * w + (w - 1 - x)];
        Img<E> i2(w, h, 0, 3), o2(w, h, 0, 4), w2(w, h, 0, 5); i2.set(fl); BlurImageOps::gaussian(i2.g(), o2.g(), sigma, width, w2.g());
        std::vector<E> f2(px.size()); for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) f2[y * w + x] = a[(h - 1 - y) * w + (w - 1 - x)];
        check_output(c, o2, f2, "flip", 4 * ftol(px));
    }
}
// two calls in a row, every ordered pair of settings: the second must not be affected by the first
template<class E> static void pairs(mc::Ctx& c) {
    struct P { uint32_t w, h; double sigma; int width; }; static std::vector<P> all;
    if (all.empty()) for (auto& s : {std::pair<uint32_t, uint32_t>(7, 6), {6, 7}}) for (int width : {-1, 0, 2, 3, 4, 5, 7}) for (double sigma : {-1., 0., 0.5, 1., 1.3, 2.}) all.push_back({s.first, s.second, sigma, width});
    const P& a = all[c.choose((uint32_t)all.size(), "first call")]; c.shard(); c.describe("Gaussian of %ux%u, sigma %g width %d before every other call on %s", a.w, a.h, a.sigma, a.width, type_name<E>());
    for (auto& b : all) { one<E>(c, a.w, a.h, a.sigma, a.width, 0, 0, 0, 1); one<E>(c, b.w, b.h, b.sigma, b.width, 0, 0, 0, 1); c.state(mc::mix(mc::mix(&a - &all[0], &b - &all[0]), sizeof(E) * 2 + std::is_floating_point<E>::value + 5000)); }
}
template<class E> static void run(mc::Ctx& c) {
    if (c.flag("pairs of calls")) { pairs<E>(c); return; }
    static const std::vector<double> sig = {-1, 0, 0.3, 0.5, 0.8, 1, 1.5, 2, 3.3};
    int fam = c.choose(3, "family"); uint32_t w, h;
    if (fam == 2) {
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; w = s.w; h = s.h; c.shard(); c.describe("Gaussian blur of a %ux%u image of %s", w, h, type_name<E>()); int i = 0;
        for (int width : {3, -1, 5, 4, 9, 13}) { i++; if ((uint64_t)w * h > 20000 && i > 2) break; one<E>(c, w, h, i % 2 ? 0.9 : 1.7, width, (w + i) % LAYOUTS, (h + i) % LAYOUTS, (w + h + i) % LAYOUTS, 1 + i % 2); c.state(mc::mix(mc::mix(w * 70000ull + h, width + 2), sizeof(E) * 2 + std::is_floating_point<E>::value + 300)); }
        return;
    }
    if (fam == 0) { uint32_t n = c.thorough ? 8 : 6; w = 1 + c.choose(n, "width"); h = 1 + c.choose(n, "height"); } else { int q = c.choose(BIG, "shape"); w = big[q][0]; h = big[q][1]; }
    int data = 1 + c.choose(3, "data"); c.shard(); uint32_t u = w * 3 + h;
    c.describe("Gaussian blur of a %ux%u image of %s, every width and sigma of the grid", w, h, type_name<E>());
    for (int width = -1; width <= (fam ? 25 : 12); width++) for (double s : sig) {
        c.state(mc::mix(mc::mix(w * 128 + h, width + 2), mc::mix((uint64_t)(s * 100 + 200), data * 32 + sizeof(E) * 2 + std::is_floating_point<E>::value)));
        bool all = fam == 0 && w + h <= 5 && width >= 2 && width <= 4 && s == 1 && data == 1; int nl = all ? LAYOUTS * LAYOUTS : 1 + (data == 1);
        for (int l = 0; l < nl; l++) { int q = all ? l : l == 0 ? 0 : 1 + (int)((u += 7) % 24); one<E>(c, w, h, s, width, q % LAYOUTS, q / LAYOUTS, (q + l) % LAYOUTS, data); }
    }
}
template<class E> static void extreme(mc::Ctx& c) {
    int q = c.choose(4, "shape"), width = c.pick({-1, 3, 5}, "width"); c.shard(); static const uint32_t sh[][2] = {{600000, 6}, {6, 600000}, {70000, 9}, {9, 70000}}; c.describe("Gaussian of %ux%u width %d on %s", sh[q][0], sh[q][1], width, type_name<E>());
    c.state(mc::mix(q * 8 + width, sizeof(E) + 9000)); one<E>(c, sh[q][0], sh[q][1], 0.8, width, 0, 0, 0, 1);
}
template<class E> static void refusals(mc::Ctx& c) { c.shard(); }
#endif
void mc_body(mc::Ctx& c) {
    switch (c.choose(9, "type")) { case 0: run<U8>(c); break; case 1: run<S16>(c); break; case 2: run<U16>(c); break; case 3: run<S32>(c); break; case 4: run<F32>(c); break; case 5: run<F64>(c); break; case 6: extreme<U8>(c); break; case 7: extreme<F64>(c); break; default: refusals<U8>(c); refusals<F32>(c); refusals<S16>(c); }
}
