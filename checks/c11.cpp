// C11: convolution against its definition.  Every shape, kernel width, origin, policy and layout of the grid; kernels with
// a single one (which decide, tap by tap, the pixel each tap reads) and kernels with generic weights.
#include "border_ref.h"
#include "convolve.h"
using namespace boofcv;
const char* mc_property = "C11";

enum What { HORIZONTAL, VERTICAL, TWO_D };
enum Code { FULL, NAIVE, NAIVE_DIV, INNER, INNER_DIV, BORDER, CODES };
static const char* const code_name[] = {"ConvolveImage", "ConvolveNaive", "ConvolveNaive/divisor", "ConvolveImage_Inner", "ConvolveImage_Inner/divisor", "ConvolveImage_Border"};
static const char* const what_name[] = {"horizontal", "vertical", "2D"};

template<class E> struct Ker { typedef typename TypeInfo<E>::signed_type S; };

template<class E, class R> struct Case {
    typedef typename TypeInfo<E>::signed_type S;
    uint32_t w, h, kw, ko; What what; Code code; int border, lin, lout, kind, kernel_kind; S divisor;
};
// runs the code under test
template<class S> static Kernel1D<S> k1(uint32_t w, uint32_t o, const std::vector<S>& v) { Kernel1D<S> k(w, o); for (uint32_t i = 0; i < w; i++) k[i] = v[i]; return k; }
template<class S> static Kernel2D<S> k2(uint32_t w, uint32_t o, const std::vector<S>& v) { Kernel2D<S> k(w, o); for (uint32_t i = 0; i < w * w; i++) k.at(i % w, i / w) = v[i]; return k; }

template<class E, class R> struct DivCall { static bool go(const Case<E, R>&, const std::vector<typename TypeInfo<E>::signed_type>&, const ImageBorder<E>&, const Gray<E>&, Gray<R>&) { return false; } };
template<class E> struct DivCall<E, E> {
    typedef typename TypeInfo<E>::signed_type S;
    static bool go(const Case<E, E>& k, const std::vector<S>& v, const ImageBorder<E>& b, const Gray<E>& in, Gray<E>& out) {
        if (k.code == NAIVE_DIV) {
            if (k.what == HORIZONTAL) ConvolveNaive::horizontal(k1(k.kw, k.ko, v), b, out, k.divisor);
            else if (k.what == VERTICAL) ConvolveNaive::vertical(k1(k.kw, k.ko, v), b, out, k.divisor);
            else ConvolveNaive::convolve(k2(k.kw, k.ko, v), b, out, k.divisor);
        } else {
            if (k.what == HORIZONTAL) ConvolveImage_Inner::horizontal_unrolled(k1(k.kw, k.ko, v), in, out, k.divisor);
            else if (k.what == VERTICAL) ConvolveImage_Inner::vertical_unrolled(k1(k.kw, k.ko, v), in, out, k.divisor);
            else ConvolveImage_Inner::convolve(k2(k.kw, k.ko, v), in, out, k.divisor);
        }
        return true;
    }
};
template<class E, class R> static bool call(const Case<E, R>& k, const std::vector<typename TypeInfo<E>::signed_type>& v, const ImageBorder<E>& b, const Gray<E>& in, Gray<R>& out) {
    if (k.code == NAIVE_DIV || k.code == INNER_DIV) return DivCall<E, R>::go(k, v, b, in, out);
#define CALL(CLASS, ARG) { if (k.what == HORIZONTAL) CLASS::horizontal(k1(k.kw, k.ko, v), ARG, out); else if (k.what == VERTICAL) CLASS::vertical(k1(k.kw, k.ko, v), ARG, out); else CLASS::convolve(k2(k.kw, k.ko, v), ARG, out); }
    if (k.code == FULL) CALL(ConvolveImage, b)
    else if (k.code == NAIVE) CALL(ConvolveNaive, b)
    else if (k.code == BORDER) CALL(ConvolveImage_Border, b)
    else { if (k.what == HORIZONTAL) ConvolveImage_Inner::horizontal_unrolled(k1(k.kw, k.ko, v), in, out); else if (k.what == VERTICAL) ConvolveImage_Inner::vertical_unrolled(k1(k.kw, k.ko, v), in, out); else ConvolveImage_Inner::convolve(k2(k.kw, k.ko, v), in, out); }
    return true;
}
template<class E, class R> static void run_case(mc::Ctx& c, const Case<E, R>& k, const std::vector<typename TypeInfo<E>::signed_type>& v) {
    typedef typename TypeInfo<E>::signed_type S;
    bool isf = std::is_floating_point<E>::value;
    Img<E> in(k.w, k.h, k.lin, 3); std::vector<E> px = pixels<E>(k.w * k.h, k.kind, k.w * 31 + k.h); in.set(px);
    Img<R> out(k.w, k.h, k.lout, 11); std::vector<R> before = out.get();
    E bv = (E)9; auto border = make_border<E>(k.border, bv); border->setImage(in.g());
    if (k.code == FULL && k.lout == 0 && ((k.kw + k.ko) & 1)) { out.gray.reset(new Gray<R>(k.h + 1, k.w)); }   // the output takes the input's shape
    if (!call(k, v, *border, in.g(), out.g())) return;
    int oL = (int)k.ko, oR = (int)(k.kw - k.ko - 1), W = (int)k.w, H = (int)k.h;
    std::vector<R> want(px.size());
    bool part = k.code == INNER || k.code == INNER_DIV || k.code == BORDER;
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
        bool inner = (k.what == VERTICAL || (x >= oL && x < W - oR)) && (k.what == HORIZONTAL || (y >= oL && y < H - oR));
        R& o = want[y * W + x];
        if (part && inner == (k.code == BORDER)) { o = before[y * W + x]; continue; }
        if (isf) {
            double t = 0; for (int i = 0; i < (k.what == TWO_D ? (int)k.kw : 1); i++) for (int j = 0; j < (int)k.kw; j++) {
                int dx = k.what == VERTICAL ? 0 : j - oL, dy = k.what == HORIZONTAL ? 0 : k.what == VERTICAL ? j - oL : i - oL;
                t += (double)v[i * k.kw + j] * (double)ref_pixel<E>(px, W, H, x + dx, y + dy, k.border, bv); }
            if (k.code == NAIVE_DIV || k.code == INNER_DIV) t /= (double)k.divisor;
            o = (R)t;
        } else {
            int64_t t = 0; for (int i = 0; i < (k.what == TWO_D ? (int)k.kw : 1); i++) for (int j = 0; j < (int)k.kw; j++) {
                int dx = k.what == VERTICAL ? 0 : j - oL, dy = k.what == HORIZONTAL ? 0 : k.what == VERTICAL ? j - oL : i - oL;
                t += (int64_t)v[i * k.kw + j] * (int64_t)ref_pixel<E>(px, W, H, x + dx, y + dy, k.border, bv); }
            if (t > INT32_MAX - 100000 || t < INT32_MIN + 100000) return;         // the sum type cannot hold it: nothing is promised
            if (k.code == NAIVE_DIV || k.code == INNER_DIV) t = (t + (int64_t)k.divisor / 2) / (int64_t)k.divisor;
            o = (R)t;
        }
    }
    double mx = 1; if (isf) for (auto& q : want) mx = std::max(mx, std::abs((double)q));
    check_output(c, out, want, "convolution", isf ? mx * (sizeof(E) == 4 ? 1e-5 : 1e-12) : 0);
    check_input(c, in, px, "input");
    c.step();
}
template<class S> static std::vector<S> weights(uint32_t n, int kind) {     // kind<0: generic, otherwise the tap that is one
    std::vector<S> v(n, (S)0);
    if (kind >= 0) { v[kind] = 1; return v; }
    uint32_t s = 41 + n;
    for (auto& x : v) { int r = (int)(lcg(s) % (kind == -1 ? 19u : 401u)) - (kind == -1 ? 6 : 150); if (r == 0) r = 2; x = std::is_floating_point<S>::value ? (S)(r * 0.25) : (S)r; }
    return v;
}

template<class E, class R> static void run(mc::Ctx& c) {
    typedef typename TypeInfo<E>::signed_type S;
    Case<E, R> k; int fam = c.choose(4, "family");
    k.what = (What)c.choose(3, "direction"); k.code = (Code)c.choose(CODES, "code");
    if (fam == 0) { uint32_t n = c.thorough ? 7 : 6; k.w = 1 + c.choose(n, "width"); k.h = 1 + c.choose(n, "height"); }
    else if (fam == 1) { static const uint32_t sh[][2] = {{21, 2}, {3, 22}, {24, 24}, {40, 1}, {1, 40}, {9, 12}, {13, 8}}; int q = c.choose(7, "shape"); k.w = sh[q][0]; k.h = sh[q][1]; }
    else if (fam == 3) { const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; k.w = s.w; k.h = s.h; }
    else { static const uint32_t sh[][2] = {{5, 4}, {4, 6}, {7, 7}}; int q = c.choose(3, "shape"); k.w = sh[q][0]; k.h = sh[q][1]; }
    c.shard();
    c.describe("%s %s, %ux%u image %s to %s, every kernel width and origin", code_name[k.code], what_name[k.what], k.w, k.h, type_name<E>(), type_name<R>());
    uint32_t limit = k.what == HORIZONTAL ? k.w : k.what == VERTICAL ? k.h : std::min(k.w, k.h);
    uint32_t maxk = fam == 1 ? (k.what == TWO_D ? 9 : 23) : k.what == TWO_D ? 5 : (c.thorough ? 11 : 9);
    bool part = k.code == INNER || k.code == INNER_DIV || k.code == BORDER;
    uint32_t u = 0;
    k.border = part && k.code != BORDER ? 0 : c.choose(RB_COUNT, "policy");
    if (fam == 3) {     // large shapes: a few kernels of every kind of code
        if (k.border > 1 && (k.w + k.h + k.border) % 3) return;
        static const uint32_t kn[][2] = {{3, 1}, {1, 0}, {2, 1}, {4, 0}, {5, 2}, {7, 3}, {9, 4}, {11, 5}, {13, 2}, {6, 5}}; int n = k.what == TWO_D ? 5 : 10; bool huge = (uint64_t)k.w * k.h > 20000;
        for (int i = 0; i < n; i++) { k.kw = kn[i][0]; k.ko = kn[i][1]; if ((part && k.kw > limit) || (huge && i % 4 != (int)((k.w + k.h) % 4) && i)) continue; k.lin = (k.w + i) % LAYOUTS; k.lout = (k.h + i) % LAYOUTS; k.kind = 1; k.divisor = (S)(2 + i); run_case(c, k, weights<S>(k.what == TWO_D ? k.kw * k.kw : k.kw, -1));
            c.state(mc::mix(mc::mix(k.w * 70000ull + k.h, k.kw * 32 + k.ko), mc::mix(k.what * 8 + k.code, k.border * 1024 + sizeof(E) * 64 + sizeof(R) * 2 + std::is_floating_point<E>::value))); }
        return;
    }
    for (k.kw = 1; k.kw <= maxk; k.kw++) {
        if (part && k.kw > limit) break;                 // these parts are for kernels inside the image
        for (k.ko = 0; k.ko < k.kw; k.ko++) {
            uint32_t n = k.what == TWO_D ? k.kw * k.kw : k.kw;
            c.state(mc::mix(mc::mix(mc::mix(k.w * 64 + k.h, k.kw * 32 + k.ko), k.what * 8 + k.code), mc::mix(k.border, sizeof(E) * 64 + sizeof(R) * 2 + std::is_floating_point<E>::value)));
            if (fam == 2) {                              // one tap at a time
                k.lin = k.lout = 0; k.kind = 0; k.divisor = 1;
                for (uint32_t t = 0; t < n; t++) run_case(c, k, weights<S>(n, (int)t));
            } else {
                std::vector<S> v = weights<S>(n, fam == 1 ? -1 : -1 - (int)(k.ko & 1));
                bool all = fam == 0 && k.w + k.h <= 7 && k.kw <= 4;
                for (int l = 0; l < (all ? LAYOUTS * LAYOUTS : 2); l++) {
                    int q = all ? l : l == 0 ? 0 : 1 + (int)((u += 7) % 24);
                    k.lin = q % LAYOUTS; k.lout = q / LAYOUTS; k.kind = 1 + (l == 1 && std::is_same<E, U8>::value); k.divisor = (S)(l == 0 ? 1 : 2 + (k.kw + l) % 9);
                    run_case(c, k, v);
                }
            }
        }
    }
}
void mc_body(mc::Ctx& c) {
    switch (c.choose(9, "type")) {
        case 0: run<U8, S32>(c); break; case 1: run<U8, U8>(c); break; case 2: run<F32, F32>(c); break; case 3: run<S16, S16>(c); break; case 4: run<S16, S32>(c); break;
        case 5: run<S32, S32>(c); break; case 6: run<F64, F64>(c); break; case 7: run<U8, S16>(c); break; default: run<U16, S32>(c);
    }
}
