// C12: normalised convolution against its definition on the whole grid of shapes, kernel widths, origins and layouts.
#include "convolve.h"
#include "norm_ref.h"
using namespace boofcv;
const char* mc_property = "C12";
enum Code { FULL_H, FULL_V, NAIVE_H, NAIVE_V, EDGE_H, EDGE_V, SEPARABLE, CODES };
static const char* const code_name[] = {"ConvolveNormalized::horizontal", "ConvolveNormalized::vertical", "ConvolveNormalizedNaive::horizontal", "ConvolveNormalizedNaive::vertical", "ConvolveNormalized_JustBorder::horizontal", "ConvolveNormalized_JustBorder::vertical", "ConvolveNormalized::convolve"};
template<class S> static std::vector<S> positive(uint32_t n, uint32_t ko, int kind, bool small) {
    std::vector<S> v(n); uint32_t s = 99 + n * 7; bool f = std::is_floating_point<S>::value;
    for (auto& x : v) { uint32_t r = lcg(s); x = kind == 0 ? (S)1 : kind == 1 ? (f ? (S)((1 + r % 15) * 0.25) : (S)(1 + r % 9)) : (f ? (S)((100 + r % 900) * 0.5) : (S)(small ? 250 + r % 100 : 200 + r % 600)); }
    // weights that add up to exactly one take a path of their own, those that nearly do must not
    if (kind == 4) { v.assign(n, (S)0); v[ko] = (S)1; }
    if (f && (kind == 5 || kind == 6)) for (uint32_t i = 0; i < n; i++) v[i] = (S)((kind == 5 ? 1.004 : 0.997) * (1 + i % 2) / (n + n / 2));
    if (f && kind == 3) { double t = 0; for (uint32_t i = 0; i + 1 < n; i++) { v[i] = (S)(1.0 / 64); t += 1.0 / 64; } v[n - 1] = (S)(1 - t); }
    return v;
}
template<class E> static void one(mc::Ctx& c, Code code, uint32_t w, uint32_t h, uint32_t kw, uint32_t ko, int kind, int lin, int lout, int lwork, int data) {
    typedef typename TypeInfo<E>::signed_type S;
    std::vector<S> v = positive<S>(kw, ko, kind, sizeof(E) == 2); Kernel1D<S> k(kw, ko); for (uint32_t i = 0; i < kw; i++) k[i] = v[i];
    Img<E> in(w, h, lin, 3); std::vector<E> px = pixels<E>(w * h, data, w * 31 + h); if (data == 3) px.assign(w * h, (E)(sizeof(E) == 1 ? 255 : 12345)); in.set(px);
    Img<E> out(w, h, lout, 11); std::vector<E> before = out.get(), want;
    bool vert = code == FULL_V || code == NAIVE_V || code == EDGE_V;
    switch (code) {
        case FULL_H: ConvolveNormalized::horizontal(k, in.g(), out.g()); break;
        case FULL_V: ConvolveNormalized::vertical(k, in.g(), out.g()); break;
        case NAIVE_H: ConvolveNormalizedNaive::horizontal(k, in.g(), out.g()); break;
        case NAIVE_V: ConvolveNormalizedNaive::vertical(k, in.g(), out.g()); break;
        case EDGE_H: ConvolveNormalized_JustBorder::horizontal(k, in.g(), out.g()); break;
        case EDGE_V: ConvolveNormalized_JustBorder::vertical(k, in.g(), out.g()); break;
        default: {
            Img<E> work(w, h, lwork, 5);
            if (lwork == 0) work.gray.reset(new Gray<E>(1, h + 2));
            if (lout == 0) out.gray.reset(new Gray<E>(h + 1, w));
            ConvolveNormalized::convolve(k, in.g(), out.g(), work.g());
            check_stray(c, work, "work");
            want = ref_normalized(ref_normalized(px, w, h, v, ko, false), w, h, v, ko, true);
        }
    }
    if (code != SEPARABLE) want = ref_normalized(px, w, h, v, ko, vert);
    if (code == EDGE_H || code == EDGE_V) for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) { uint32_t p = vert ? y : x, n = vert ? h : w; if (p >= ko && p < n - (kw - ko - 1)) want[y * w + x] = before[y * w + x]; }
    check_output(c, out, want, "normalized", ftol(px));
    check_input(c, in, px, "input");
    c.step();
}
// two calls in a row, every ordered pair of settings: the second must not be affected by the first
template<class E> static void pairs(mc::Ctx& c) {
    struct P { int code; uint32_t w, h, kw, ko; int kind; }; static std::vector<P> all;
    if (all.empty()) for (int code = 0; code < CODES; code++) for (auto& s : {std::pair<uint32_t, uint32_t>(6, 5), {5, 6}, {9, 3}}) for (auto& k : {std::pair<uint32_t, uint32_t>(1, 0), {2, 1}, {3, 0}, {3, 1}, {5, 2}}) for (int kind = 0; kind < 2; kind++) { P p{code, s.first, s.second, k.first, k.second, kind ? 1 : 0}; if ((code == EDGE_H && p.kw > p.w) || (code == EDGE_V && p.kw > p.h)) continue; all.push_back(p); }
    const P& a = all[c.choose((uint32_t)all.size(), "first call")]; c.shard(); c.describe("%s, %ux%u, kernel %u origin %u weights %d, before every other call on %s", code_name[a.code], a.w, a.h, a.kw, a.ko, a.kind, type_name<E>());
    for (auto& b : all) { one<E>(c, (Code)a.code, a.w, a.h, a.kw, a.ko, a.kind, 0, 0, 0, 1); one<E>(c, (Code)b.code, b.w, b.h, b.kw, b.ko, b.kind, 0, 0, 0, 1); c.state(mc::mix(mc::mix(&a - &all[0], &b - &all[0]), sizeof(E) * 2 + std::is_floating_point<E>::value + 5000)); }
}
template<class E> static void run(mc::Ctx& c) {
    if (c.flag("pairs of calls")) { pairs<E>(c); return; }
    Code code = (Code)c.choose(CODES, "code"); int fam = c.choose(3, "family"); uint32_t w, h; int kind, data;
    if (fam == 0) { uint32_t n = c.thorough ? 8 : 6; w = 1 + c.choose(n, "width"); h = 1 + c.choose(n, "height"); }
    else { static const uint32_t sh[][2] = {{21, 2}, {3, 22}, {24, 23}, {40, 1}, {1, 40}, {9, 14}, {70, 2}, {2, 70}}; int q = c.choose(8, "shape"); w = sh[q][0]; h = sh[q][1]; }
    if (fam == 2) {
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; w = s.w; h = s.h; c.shard(); c.describe("%s, %ux%u image of %s", code_name[code], w, h, type_name<E>()); bool huge = (uint64_t)w * h > 20000;
        static const uint32_t kn[][2] = {{3, 1}, {1, 0}, {2, 1}, {4, 0}, {5, 2}, {7, 3}, {9, 4}, {11, 5}, {13, 2}, {6, 5}}; uint32_t limit = code == EDGE_H ? w : code == EDGE_V ? h : 100000;
        for (int i = 0; i < 10; i++) { if (kn[i][0] > limit || (huge && i % 4 != (int)((w + h) % 4) && i)) continue; one<E>(c, code, w, h, kn[i][0], kn[i][1], (i + w) % 2, (w + i) % LAYOUTS, (h + i) % LAYOUTS, (w + h + i) % LAYOUTS, 1); c.state(mc::mix(mc::mix(w * 70000ull + h, i), mc::mix(code, sizeof(E) * 2 + std::is_floating_point<E>::value + 300))); }
        return;
    }
    kind = c.choose(std::is_floating_point<E>::value ? 7 : 4, "weights"); if (!std::is_floating_point<E>::value && kind == 3) kind = 4; data = 1 + c.choose(3, "data");
    c.shard();
    c.describe("%s, %ux%u image of %s, every kernel width and origin", code_name[code], w, h, type_name<E>());
    uint32_t limit = code == EDGE_H ? w : code == EDGE_V ? h : 1000, maxk = fam ? 27 : 11, u = w * 3 + h;
    if (fam && !c.thorough && data != 1 && kind != 1) maxk = 5;
    for (uint32_t kw = 1; kw <= std::min(maxk, limit); kw++) for (uint32_t ko = 0; ko < kw; ko++) {
        c.state(mc::mix(mc::mix(w * 128 + h, kw * 32 + ko), mc::mix(code * 32 + kind * 4 + data, sizeof(E) * 2 + std::is_floating_point<E>::value)));
        bool all = fam == 0 && w + h <= 6 && kw <= 4 && kind == 1 && data == 1;
        int nl = all ? LAYOUTS * LAYOUTS : 2;
        for (int l = 0; l < nl; l++) { int q = all ? l : l == 0 ? 0 : 1 + (int)((u += 7) % 24); one<E>(c, code, w, h, kw, ko, kind, q % LAYOUTS, q / LAYOUTS, (q + l) % LAYOUTS, data); }
    }
}
template<class E> static void shapes(mc::Ctx& c) {      // images of different shapes are refused
    typedef typename TypeInfo<E>::signed_type S;
    c.shard(); c.step(); c.describe("shape mismatch"); Kernel1D<S> k(3, 1); for (int i = 0; i < 3; i++) k[i] = 1;
    Gray<E> in(4, 3); for (uint32_t w = 3; w < 6; w++) for (uint32_t h = 2; h < 5; h++) { if (w == 4 && h == 3) continue; Gray<E> out(w, h);
        c.ok(throws([&] { ConvolveNormalized::horizontal(k, in, out); }) && throws([&] { ConvolveNormalized::vertical(k, in, out); }) && out.width == w && out.height == h, "no-refusal", "an output of another shape was not refused"); }
}
void mc_body(mc::Ctx& c) {
    switch (c.choose(7, "type")) { case 0: run<U8>(c); break; case 1: run<S16>(c); break; case 2: run<U16>(c); break; case 3: run<S32>(c); break; case 4: run<F32>(c); break; case 5: run<F64>(c); break; default: shapes<U8>(c); shapes<F32>(c); }
}
