// C35: the Java classes of the repository, on a real Java machine with the real native library, do what the library does when given the same arguments.
// C36: the filters BoofCPP.initialize() installs are shared by all threads: every schedule of two calls gives what each call gives alone.
#include "realjvm.h"
#include "threshold_block_filters.h"
#include "binary_ops.h"
#include "image_blur.h"
#include "convolve.h"
#include "contour.h"
using namespace boofcv;
#if PROP == 35
const char* mc_property = "C35";
#else
const char* mc_property = "C36";
#endif
struct Case {
    mc::Ctx& c; Java& j; std::string what;
    Case(mc::Ctx& c) : c(c), j(java()) { j.o.clear(); j.next_id = 1; j.b(1); done("reset"); }
    void done(const char* call) { int r = j.result(); c.step(); if (r) c.fail("call-failed", "%s: %s failed in Java: %s", what.c_str(), call, j.error.c_str()); }
    // the outcome of a call that must be refused or accepted
    void outcome(bool refused) {
        int r = j.result(); c.step(); c.s->checks.fetch_add(1, std::memory_order_relaxed);
        if (r == 2) c.fail("error", "%s: the call ended with %s instead of an ordinary exception", what.c_str(), j.error.c_str());
        if (refused && r == 0) c.fail("not-refused", "%s: the call was accepted", what.c_str());
        if (!refused && r) c.fail("refused", "%s: the call failed: %s", what.c_str(), j.error.c_str());
    }
    void unchanged(int id, const JI& was, const char* which) { JI g = read_image(j, id, was.type); if (g.w != was.w || g.h != was.h || g.start != was.start || g.stride != was.stride || g.sub != was.sub) c.fail("input-changed", "%s: the shape of the %s image was changed", what.c_str(), which); if (g.d != was.d) c.fail("input-changed", "%s: the %s array was changed", what.c_str(), which); c.s->checks.fetch_add(1, std::memory_order_relaxed); }
    // was: the output before the call
    template<class E> void output(int id, const JI& was, int w, int h, const std::vector<E>& want, const char* which = "output") {
        JI g = read_image(j, id, was.type); if (g.w != w || g.h != h) c.fail("shape", "%s: the %s image is %dx%d, expected %dx%d", what.c_str(), which, g.w, g.h, w, h);
        if (was.w == w && was.h == h && (g.start != was.start || g.stride != was.stride || g.sub != was.sub || g.d.size() != was.d.size())) c.fail("shape", "%s: the %s image already had the right shape, but its fields were changed", what.c_str(), which);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int32_t v = g.d[g.start + y * g.stride + x], q = bits<E>(want[y * w + x]); if (v != q) c.fail("pixel", "%s: pixel (%d,%d) of the %dx%d %s image is %d in Java (as bits), the library gives %d", what.c_str(), x, y, w, h, which, v, q); }
        if (was.w == w && was.h == h) for (int i = 0; i < (int)g.d.size(); i++) { int r = i - was.start; if (r >= 0 && r / was.stride < h && r % was.stride < w) continue; if (g.d[i] != was.d[i]) c.fail("stray-write", "%s: element %d of the %s array, outside of the image, was changed", what.c_str(), i, which); }
        c.s->checks.fetch_add(want.size(), std::memory_order_relaxed);
    }
};
template<class E> static std::vector<E> values(int w, int h, uint32_t seed) { std::vector<E> v(w * h); for (int i = 0; i < w * h; i++) { uint32_t r = mc::mix(seed, i) % 977; v[i] = (E)(20 + (seed % 2 ? ((i % w) * 30 + r % 60) % 216 : r % 216)); if (std::is_floating_point<E>::value) v[i] = (E)(v[i] * 0.97); } return v; }
template<class E> static Gray<E> plain(const std::vector<E>& v, int w, int h) { Gray<E> g(w, h); for (int i = 0; i < w * h; i++) g.data[i] = v[i]; return g; }
template<class E> static std::vector<E> pixels_of(const Gray<E>& g) { std::vector<E> v; for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) v.push_back(g.at(x, y)); return v; }
static void initialize(Case& k) {
    static bool again = false; if (again) return; again = true;
    k.j.b(2); k.done("BoofCPP.initialize()"); int n = k.j.ri(); for (int i = 0; i < n; i++) k.j.rb();
}
// ---------------------------------------------------------------- filters (blur, convolution, normalised convolution)
enum { MEAN, GAUSSIAN, HORIZONTAL, VERTICAL, CONVOLVE, NHORIZONTAL, NVERTICAL, NCONVOLVE, FOPS };
static const char* const fop_name[] = {"mean", "gaussian", "convolve horizontal", "convolve vertical", "convolve", "normalised horizontal", "normalised vertical", "normalised convolve"};
enum { B_EXTEND, B_REFLECT, B_WRAP, B_VALUE, B_EXCEPTION };
struct F { int op; int in, out; int w, h; uint32_t seed; int kw, ko, extra; int border; double value; bool other_border; int radius; double sigma; int lin, lout, lst, dw; };
static std::string text(const F& f) { char t[300]; snprintf(t, sizeof t, "%s of a %dx%d image (type %d to %d, arrays %d,%d,%d, output +%d, kernel %d/%d+%d, border %d value %g%s, radius %d, sigma %g)", fop_name[f.op], f.w, f.h, f.in, f.out, f.lin, f.lout, f.lst, f.dw, f.kw, f.ko, f.extra, f.border, f.value, f.other_border ? " of the other type" : "", f.radius, f.sigma); return t; }
template<class K> static std::vector<K> weights(const F& f) { std::vector<K> v(f.op == CONVOLVE || f.op == NCONVOLVE ? f.kw * f.kw : f.kw); for (size_t i = 0; i < v.size(); i++) v[i] = (K)((f.op >= NHORIZONTAL ? 1 : -2) + (int)((i * 5 + 1) % 4)) * (K)(std::is_floating_point<K>::value ? 0.75 : 1); return v; }
template<class E, class O, class K> struct Lib {
    static void run(const F& f, Gray<E>& gi, Gray<O>& go) {
        static const BorderType t[] = {BorderType::EXTENDED, BorderType::REFLECT, BorderType::WRAP, BorderType::ZERO}; auto bd = FactoryImageBorder::create_SB<E>(t[f.border]); bd->setImage(gi); auto kv = weights<K>(f);
        if (f.op == CONVOLVE) { Kernel2D<K> k(f.kw, f.ko); for (size_t i = 0; i < kv.size(); i++) k.data[i] = kv[i]; ConvolveImage::convolve(k, *bd, go); return; }
        Kernel1D<K> k(f.kw, f.ko); for (size_t i = 0; i < kv.size(); i++) k.data[i] = kv[i]; if (f.op == HORIZONTAL) ConvolveImage::horizontal(k, *bd, go); else ConvolveImage::vertical(k, *bd, go);
    }
};
template<class E, class K> static void same(const F& f, Gray<E>& gi, Gray<E>& go) {
    Gray<E> gs(gi.width, gi.height);
    if (f.op == MEAN) { BlurImageOps::mean(gi, go, (uint32_t)f.radius, gs); return; } if (f.op == GAUSSIAN) { BlurImageOps::gaussian(gi, go, f.sigma, f.radius > 0 ? 2 * f.radius + 1 : -1, gs); return; }
    auto kv = weights<K>(f); Kernel1D<K> k(f.kw, f.ko); for (size_t i = 0; i < kv.size(); i++) k.data[i] = kv[i]; if (f.op == NHORIZONTAL) ConvolveNormalized::horizontal(k, gi, go); else ConvolveNormalized::vertical(k, gi, go);
}
template<> struct Lib<U8, U8, S32> { static void run(const F& f, Gray<U8>& gi, Gray<U8>& go) { same<U8, S32>(f, gi, go); } };
template<> struct Lib<F32, F32, F32> { static void run(const F& f, Gray<F32>& gi, Gray<F32>& go) { if (f.op >= HORIZONTAL && f.op <= CONVOLVE) { typedef F32 E; static const BorderType t[] = {BorderType::EXTENDED, BorderType::REFLECT, BorderType::WRAP, BorderType::ZERO}; auto bd = FactoryImageBorder::create_SB<E>(t[f.border]); bd->setImage(gi); auto kv = weights<F32>(f);
    if (f.op == CONVOLVE) { Kernel2D<F32> k(f.kw, f.ko); for (size_t i = 0; i < kv.size(); i++) k.data[i] = kv[i]; ConvolveImage::convolve(k, *bd, go); return; } Kernel1D<F32> k(f.kw, f.ko); for (size_t i = 0; i < kv.size(); i++) k.data[i] = kv[i]; if (f.op == HORIZONTAL) ConvolveImage::horizontal(k, *bd, go); else ConvolveImage::vertical(k, *bd, go); } else same<F32, F32>(f, gi, go); } };
// a call on fresh Java objects: its preparation, its bytes, its judgement
struct Call {
    F f; JI in, out, st, kin; int iin, iout, ist = 0, ik = 0; bool refused; std::vector<int32_t> kernel, want; bool flt;
    Call(Case& k, const F& f) : f(f) {
        flt = f.in == 5; in = blank(f.in, f.w, f.h, f.lin, f.seed); refused = false; if (flt) prepare<F32>(); else prepare<U8>();
        iin = new_image(k.j, in); out = blank(f.out, f.w + f.dw, f.h, f.lout, f.seed + 9); iout = new_image(k.j, out);
        if (f.op <= GAUSSIAN) { if (f.lst >= 0) { st = blank(f.in, f.w + (f.lst == LONG ? 2 : 0), f.h, f.lst, f.seed + 20); ist = new_image(k.j, st); } }
        else { ik = k.j.next_id++; k.j.b(12); k.j.i(ik); bool two = f.op == CONVOLVE || f.op == NCONVOLVE; k.j.b(two); k.j.b(flt); k.j.i(f.kw); k.j.i(f.ko); if (flt) for (F32 v : weights<F32>(f)) kernel.push_back(bits<F32>(v)); else for (S32 v : weights<S32>(f)) kernel.push_back(v); for (int i = 0; i < f.extra; i++) kernel.push_back(5); k.j.i((int)kernel.size()); for (int32_t v : kernel) k.j.i(v); k.done("new kernel"); }
    }
    template<class E> void prepare() { if (f.in == (std::is_same<E, U8>::value ? 0 : 5)) put<E>(in, values<E>(f.w, f.h, f.seed)); }
    template<class E, class O, class K> std::vector<O> reference() {
        Gray<E> gi = plain(values<E>(f.w, f.h, f.seed), f.w, f.h); Gray<O> go(f.w, f.h); try { Lib<E, O, K>::run(f, gi, go); } catch (std::exception&) { refused = true; } return pixels_of(go);
    }
    void bytes(Java& j) { j.b(f.op); j.i(iin); j.i(iout); if (f.op == MEAN) { j.i(f.radius); j.i(ist); } else if (f.op == GAUSSIAN) { j.d(f.sigma); j.i(f.radius); j.i(ist); } else { j.i(ik); if (f.op <= CONVOLVE) { j.b(f.border + (flt != f.other_border ? 5 : 0)); j.d(f.value); } } }
    template<class O> void judge(Case& k, const std::vector<O>& want) { k.output<O>(iout, out, f.w, f.h, want); }
    // what must be refused whatever the library says
    bool wrong() const {
        bool conv = f.op >= HORIZONTAL && f.op <= CONVOLVE; if (f.in != 0 && f.in != 5) return true; if (f.op == NCONVOLVE) return true; if (f.op == MEAN && f.radius < 0) return true;
        if (conv && (f.border == B_EXCEPTION || (f.border == B_VALUE && (flt != f.other_border ? f.value != 0 : (int)f.value != 0)))) return true; if (conv) return flt ? f.out != 5 : f.out != 3 && f.out != 4;
        return f.out != f.in;
    }
    void finish(Case& k, bool ok) {
        if (f.in != 7) k.unchanged(iin, in, "input"); if (ik) { k.j.b(13); k.j.i(ik); k.done("read kernel"); int w = k.j.ri(), o = k.j.ri(), n = k.j.ri(); bool good = w == f.kw && o == f.ko && n == (int)kernel.size(); for (int i = 0; i < n; i++) { int32_t v = k.j.ri(); good = good && v == kernel[i]; } if (!good) k.c.fail("input-changed", "%s: the kernel was changed", k.what.c_str()); }
        if (!ok) return;
        if (flt) judge<F32>(k, reference<F32, F32, F32>()); else if (f.op < HORIZONTAL || f.op > CONVOLVE) judge<U8>(k, reference<U8, U8, S32>()); else if (f.out == 3) judge<S16>(k, reference<U8, S16, S32>()); else judge<S32>(k, reference<U8, S32, S32>());
    }
    bool expect_refused() {
        if (wrong()) return true; if (f.dw && f.lout == SUB && f.op < NHORIZONTAL) return true;      // a sub-image cannot be reshaped
        if (f.op >= NHORIZONTAL && f.dw) return true;                                               // these do not reshape
        refused = false; if (flt) reference<F32, F32, F32>(); else if (f.op < HORIZONTAL || f.op > CONVOLVE) reference<U8, U8, S32>(); else reference<U8, S32, S32>(); return refused;
    }
};
// ---------------------------------------------------------------- thresholds
enum { FIXED, OTSU, LOCAL, BMEAN, BMINMAX, BOTSU, KINDS };
static const char* const kind_name[] = {"globalFixed", "globalOtsu", "localMean", "blockMean", "blockMinMax", "blockOtsu"};
struct T { int kind; bool down, local, otsu2; double a, b; ConfigLength len; };
static std::string text(const T& s) { char t[200]; snprintf(t, sizeof t, "%s(length %g/%g, down %d, local %d, otsu2 %d, a %g, b %g)", kind_name[s.kind], s.len.length, s.len.fraction, s.down, s.local, s.otsu2, s.a, s.b); return t; }
template<class E> static std::unique_ptr<InputToBinary<Gray<E>>> library(const T& s) {
    typedef std::unique_ptr<InputToBinary<Gray<E>>> P;
    switch (s.kind) {
        case FIXED: return P(new GlobalFixedBinaryFilter<E>((E)s.a, s.down));
        case OTSU: return P(new GlobalOtsuBinaryFilter<E>((E)s.a, (E)s.b, s.down));
        case LOCAL: return P(new LocalMeanBinaryFilter<E>(s.len, s.a, s.down));
        case BMEAN: return P(new ThresholdBlockMean<E>(s.len, s.local, s.a, s.down));
        case BMINMAX: return P(new ThresholdBlockMinMax<E>((float)s.b, s.len, s.local, (float)s.a, s.down));
        default: return P(new ThresholdBlockOtsu<E>(s.otsu2, s.len, s.b, s.a, s.down, s.local));
    }
}
static int create(Case& k, const T& s, int type) { int id = k.j.next_id++; Java& j = k.j; j.b(5); j.i(id); j.b(s.kind); j.b(type); j.b(s.down); j.b(s.local); j.b(s.otsu2); j.d(s.a); j.d(s.b); j.d(s.len.length); j.d(s.len.fraction); k.done("the factory"); return id; }
template<class E> static void process(Case& k, int id, const T& s, int w, int h, int lin, int lout, int dw, uint32_t seed) {
    std::string head = k.what; char t[120]; snprintf(t, sizeof t, " processing a %dx%d image (arrays %d,%d, output +%d)", w, h, lin, lout, dw); k.what += t;
    auto px = values<E>(w, h, seed); JI in = blank(jtype<E>(), w, h, lin, seed), out = blank(0, w + dw, h, lout, seed + 5); put<E>(in, px); int ii = new_image(k.j, in), io = new_image(k.j, out); k.c.describe("%s", k.what.c_str());
    std::vector<U8> want; bool refused = dw && lout == SUB; if (!refused) { auto f = library<E>(s); Gray<E> gi = plain(px, w, h); Gray<U8> go(w, h); try { f->process(gi, go); want = pixels_of(go); } catch (std::exception&) { refused = true; } }
    k.j.b(6); k.j.i(id); k.j.i(ii); k.j.i(io); k.outcome(refused); k.unchanged(ii, in, "input"); if (!refused) k.output<U8>(io, out, w, h, want); k.what = head;
}
static T choose_threshold(mc::Ctx& c) {
    T s{(int)c.choose(KINDS, "kind"), false, false, false, 1, 0, ConfigLength(3, -1)}; s.down = c.flag("down");
    if (s.kind >= LOCAL) { s.len = c.pick({ConfigLength(3, -1), ConfigLength(5, -1), ConfigLength(2, 0.4), ConfigLength(-1, 0.5)}, "length"); s.a = c.pick({1.0, 0.9, 1.1}, "scale"); }
    if (s.kind >= BMEAN) s.local = c.flag("local");
    if (s.kind == FIXED) s.a = c.pick({0.0, 1.0, 100.0, 128.0, 200.5, 255.0}, "threshold");
    if (s.kind == OTSU) { int r = c.choose(3, "range"); s.a = r == 2 ? 15 : 0; s.b = r == 1 ? 240 : 255; }
    if (s.kind == BMINMAX) s.b = c.pick({0.0, 20.0, 150.0}, "spread");
    if (s.kind == BOTSU) { s.otsu2 = c.flag("otsu2"); s.b = c.pick({0.0, 0.1, 5.0, 200.0}, "tuning"); }
    return s;
}
static void input_type(Case& k, int id, const char* want) { k.j.b(7); k.j.i(id); k.done("getInputType"); int gray = k.j.rb(); std::string n = k.j.rs(); if (!gray || n != want) k.c.fail("input-type", "%s: getInputType() says %s%s, expected gray %s", k.what.c_str(), gray ? "gray " : "not gray ", n.c_str(), want); }
template<class E> static void threshold_case(Case& k, const T& s) {
    mc::Ctx& c = k.c; int lin = c.choose(JL, "input array"), lout = c.choose(JL, "output array"), dw = c.choose(2, "output shape"); int w = 7, h = 6; if (c.flag("larger")) { w = 13; h = 9; } if (c.thorough) c.shard();
    k.what = text(s) + (std::is_floating_point<E>::value ? " of GrayF32" : " of GrayU8"); int id = create(k, s, jtype<E>()); input_type(k, id, std::is_floating_point<E>::value ? "F32" : "U8");
    T t = s; t.down = !t.down; t.local = !t.local; t.a = t.kind == FIXED ? 180 : t.kind == OTSU ? t.a : 1.3 - t.a; t.len = ConfigLength(4, -1);
    process<E>(k, id, s, w, h, lin, lout, dw, 4); int other = create(k, t, jtype<E>()); process<E>(k, other, t, 9, 8, lout, lin, 0, 5); process<E>(k, id, s, 9, 11, lout, lin, 0, 6); process<E>(k, id, s, w, h, TIGHT, TIGHT, 0, 7);
    c.state(mc::hash_bytes(k.what.data(), k.what.size(), lin * 64 + lout * 8 + dw * 2 + w));
}
// ---------------------------------------------------------------- contour finder
static void check_chang(Case& k, int id, LinearContourLabelChang2004& lib, bool overwrite) {
    mc::Ctx& c = k.c; Java& j = k.j; j.b(18); j.i(id); k.done("getContours"); int n = j.ri(); c.s->checks.fetch_add(n + 1, std::memory_order_relaxed);
    bool good = n == (int)lib.contours.size();
    for (int q = 0; q < n; q++) { int a = j.ri(), e = j.ri(), m = j.ri(); if (good) { auto& p = lib.contours[q]; if (a != (int)p.id || e != (int)p.externalIndex || m != (int)p.internalIndexes.size()) good = false; } for (int x = 0; x < m; x++) { int v = j.ri(); if (good && v != (int)lib.contours[q].internalIndexes.at(x)) good = false; } }
    if (!good) c.fail("blobs", "%s: the blobs in Java (%d) are not those of the library (%zu)", k.what.c_str(), n, (size_t)lib.contours.size());
    uint32_t sets = lib.packedPoints.number_of_sets(); std::vector<Point2D<S32>> pts; std::vector<std::vector<std::pair<int, int>>> model;
    for (uint32_t s = 0; s < sets; s++) { pts.clear(); lib.packedPoints.load_set(s, pts); model.push_back({}); for (auto& p : pts) model.back().push_back({p.x, p.y}); }
    for (int pass = 0; pass < (overwrite ? 2 : 1); pass++) {
        for (uint32_t s = 0; s < sets; s++) {
            j.b(19); j.i(id); j.i(s); k.done("loadContour"); int m = j.ri(); bool ok = m == (int)model[s].size(); int bad = -1; for (int x = 0; x < m; x++) { int px = j.ri(), py = j.ri(); if (ok && bad < 0 && (px != model[s][x].first || py != model[s][x].second)) bad = x; } c.s->checks.fetch_add(m, std::memory_order_relaxed);
            if (!ok) c.fail("points", "%s: contour %u has %d points in Java, %zu in the library", k.what.c_str(), s, m, model[s].size());
            if (bad >= 0) c.fail("points", "%s: point %d of contour %u differs between Java and the library", k.what.c_str(), bad, s);
        }
        if (overwrite && pass == 0) for (uint32_t s = 0; s < sets; s += 2) { j.b(20); j.i(id); j.i(s); j.i((int)model[s].size()); for (auto& p : model[s]) { p.first += 1000; p.second = -p.second; j.i(p.first); j.i(p.second); } k.done("writeContour"); }
    }
    j.b(19); j.i(id); j.i(sets); k.outcome(true);
}
static void chang_process(Case& k, int id, LinearContourLabelChang2004& lib, const std::vector<U8>& px, int w, int h, int lin, int lout, int dw, bool overwrite) {
    JI in = blank(0, w, h, lin, 3), out = blank(4, w + dw, h, lout, 5); put<U8>(in, px); int ii = new_image(k.j, in), io = new_image(k.j, out); bool refused = dw && lout == SUB;
    k.j.b(15); k.j.i(id); k.j.i(ii); k.j.i(io); k.outcome(refused); k.unchanged(ii, in, "binary"); if (refused) return;
    Gray<U8> gi = plain(px, w, h); Gray<S32> gl(w, h); lib.process(gi, gl); k.output<S32>(io, out, w, h, pixels_of(gl), "label"); check_chang(k, id, lib, overwrite);
}
static void getters(Case& k, int id, int mi, int ma, int save, int rule) { k.j.b(17); k.j.i(id); k.done("the getters"); int a = k.j.ri(), b = k.j.ri(), s = k.j.ri(), r = k.j.ri(); if (a != mi || b != ma || s != save || r != rule) k.c.fail("getter", "%s: the settings read back are %d,%d,%d,%d instead of %d,%d,%d,%d", k.what.c_str(), a, b, s, r, mi, ma, save, rule); }
static void setter(Case& k, int id, int which, int v) { k.j.b(16); k.j.i(id); k.j.b(which); k.j.i(v); k.done("a setter"); }
static std::vector<U8> pattern(int kind, int& w, int& h) {
    std::vector<U8> v; w = 9; h = 8;
    if (kind == 0) { w = 90; h = 80; v.resize(w * h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) v[y * w + x] = x % 3 != 2 && y % 3 != 2; return v; }         // 2x2 blobs: 800 contours, more than one block of points
    if (kind == 1) { w = 61; h = 61; v.resize(w * h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) v[y * w + x] = !(x % 2 && y % 2); return v; }                 // one blob with 900 holes
    if (kind == 2) { w = 700; h = 420; v.resize(w * h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int d = std::min(std::min(x, w - 1 - x), std::min(y, h - 1 - y)); v[y * w + x] = d % 40 < 3; } return v; }   // nested rings, contours longer than a block
    if (kind >= 8 && kind < 12) { int n = kind == 11 ? 4000 : 1991 + kind; w = 101; h = 2 * n / 50 + 2; v.resize(w * h); for (int i = 0; i < n; i++) v[2 * (i / 50) * w + 2 * (i % 50)] = 1; return v; }    // single pixels that end before, at and after the end of a block
    if (kind == 12) { w = 1003; h = 3; v.resize(w * h); for (int i = 1; i < 1002; i++) v[w + i] = 1; return v; }        // one contour of a whole block
    v.resize(w * h); for (int i = 0; i < w * h; i++) v[i] = kind == 3 ? 0 : kind == 4 ? 1 : mc::mix(kind, i) % 3 != 0; return v;
}
static void chang_case(Case& k) {
    mc::Ctx& c = k.c; int rule = c.choose(2, "rule"), save = c.choose(2, "save"); int mi = c.pick({0, 4}, "min"), ma = c.pick({2147483647, 12}, "max"); int fam = c.choose(2, "family"); int lin = 0, lout = 0, dw = 0; std::vector<U8> px; int w = 3, h = 3;
    if (fam == 0) { int bits = 0; bits = c.choose(512, "image"); px.resize(9); for (int i = 0; i < 9; i++) px[i] = bits >> i & 1; }
    else { int p = c.choose(13, "pattern"); px = pattern(p, w, h); lin = c.choose(JL, "input array"); lout = c.thorough || (p > 2 && p < 8) ? c.choose(JL, "label array") : (lin + p + rule) % JL; dw = c.choose(2, "label shape"); }
    c.shard(); char t[160]; snprintf(t, sizeof t, "chang2004 rule %d, save %d, limits %d..%d, %dx%d image (arrays %d,%d, label +%d)", rule, save, mi, ma, w, h, lin, lout, dw); k.what = t; c.describe("%s", t); c.state(mc::hash_bytes(px.data(), px.size(), mc::hash_bytes(t, strlen(t))));
    int id = k.j.next_id++; k.j.b(14); k.j.i(id); k.done("createChang2004"); LinearContourLabelChang2004 lib(ConnectRule::FOUR); lib.maxContourSize = 0x7fffffff;
    setter(k, id, 0, mi); setter(k, id, 1, ma); setter(k, id, 2, save); setter(k, id, 3, rule); getters(k, id, mi, ma, save, rule); lib.minContourSize = mi; lib.maxContourSize = ma; lib.saveInternalContours = save; lib.setConnectRule(rule ? ConnectRule::EIGHT : ConnectRule::FOUR);
    chang_process(k, id, lib, px, w, h, lin, lout, dw, true);
    int w2, h2; auto p2 = pattern(6, w2, h2); k.what += ", then another image"; chang_process(k, id, lib, p2, w2, h2, lout, lin, 0, false); getters(k, id, mi, ma, save, rule);
    if (fam == 1) { setter(k, id, 3, !rule); lib.setConnectRule(!rule ? ConnectRule::EIGHT : ConnectRule::FOUR); k.what += ", then the first one with the other rule"; chang_process(k, id, lib, px, w, h, 0, 0, 0, false); getters(k, id, mi, ma, save, !rule); }
}
// ---------------------------------------------------------------- objects that die
static void gc_case(Case& k) {
    mc::Ctx& c = k.c; T s = choose_threshold(c); c.shard(); if (s.b != 0.1 && s.kind == BOTSU) return; k.what = text(s); c.describe("%s and objects that are garbage", k.what.c_str());
    int a = create(k, s, 0), b = create(k, s, 5), d = create(k, s, 0); process<U8>(k, a, s, 7, 6, 0, 0, 0, 4); k.j.b(21); k.j.i(a); k.done("garbage collection"); process<F32>(k, b, s, 7, 6, 0, 0, 0, 4); process<U8>(k, d, s, 8, 6, 0, 0, 0, 5);
    int f = k.j.next_id++; k.j.b(14); k.j.i(f); k.done("createChang2004"); int g = k.j.next_id++; k.j.b(14); k.j.i(g); k.done("createChang2004"); LinearContourLabelChang2004 lib(ConnectRule::FOUR); lib.maxContourSize = 0x7fffffff; setter(k, g, 0, 0); setter(k, g, 1, 2147483647); setter(k, g, 2, 1); setter(k, g, 3, 0); lib.minContourSize = 0; lib.saveInternalContours = true;
    int w, h; auto px = pattern(5, w, h); chang_process(k, g, lib, px, w, h, 0, 0, 0, false); k.j.b(21); k.j.i(f); k.done("garbage collection"); k.j.b(21); k.j.i(b); k.done("garbage collection"); chang_process(k, g, lib, px, w, h, 0, 0, 0, true); process<U8>(k, d, s, 7, 6, 0, 0, 0, 4);
}
#if PROP == 35
static void body(mc::Ctx& c) {
    int fam = c.choose(7, "family"); if (fam == 0) c.shard();
    if (fam == 0) {     // what initialize() installs
        Case k(c); initialize(k); k.what = "initialize()"; int times = 1 + c.choose(2, "again");
        static const char* const names[] = {"globalEntropy", "localGaussian", "localOtsu", "median", "mean horizontal", "mean vertical", "normalised convolve", "globalFixed", "globalOtsu", "localMean", "blockMinMax", "blockMean", "blockOtsu", "mean", "gaussian", "normalised horizontal", "normalised vertical", "horizontal", "vertical", "convolve", "chang2004"};
        for (int t = 0; t < times; t++) { k.j.b(2); k.done("BoofCPP.initialize()"); int n = k.j.ri(); for (int i = 0; i < n; i++) { int set = k.j.rb(); c.s->checks.fetch_add(1, std::memory_order_relaxed); if (set != (i >= 7)) c.fail("override", "after BoofCPP.initialize() the %s override is %s", names[i], set ? "installed although the library does not have it" : "not installed"); } c.state(t); }
        return;
    }
    if (fam == 1 || fam == 2) { T s = choose_threshold(c); if (!c.thorough) c.shard(); Case k(c); initialize(k); if (fam == 1) threshold_case<U8>(k, s); else threshold_case<F32>(k, s); return; }
    if (fam == 3) { Case k(c); initialize(k); chang_case(k); return; }
    if (fam == 4) { Case k(c); initialize(k); gc_case(k); return; }
    if (fam == 5) {     // images of types the library does not have
        int op = c.choose(KINDS + FOPS, "operation"); int type = c.pick({1, 2, 3, 4, 6, 7}, "type"), after = c.choose(2, "then"); c.shard(); Case k(c); initialize(k); char t[80]; snprintf(t, sizeof t, "%s with an image of unsupported type %d", op < KINDS ? kind_name[op] : fop_name[op - KINDS], type); k.what = t; c.describe("%s", t); c.state(op * 8 + type);
        if (op < KINDS) {
            if (type == 7) return; T s{op, true, true, false, op == FIXED ? 100.0 : op == OTSU ? 0.0 : 1.0, op == OTSU ? 255.0 : 0.1, ConfigLength(3, -1)};
            int id = k.j.next_id++; Java& j = k.j; j.b(5); j.i(id); j.b(op); j.b(type); j.b(1); j.b(1); j.b(0); j.d(s.a); j.d(s.b); j.d(3); j.d(-1); int r = j.result(); c.step(); if (r == 2) c.fail("error", "%s: the factory ended with %s", k.what.c_str(), j.error.c_str());
            if (r == 0) { JI in = blank(type, 6, 6, 0, 1), out = blank(0, 6, 6, 0, 2); int ii = new_image(j, in), io = new_image(j, out); j.b(6); j.i(id); j.i(ii); j.i(io); k.outcome(true); k.unchanged(ii, in, "input"); k.unchanged(io, out, "output"); }
            if (after) { k.what += ", then GrayU8"; int ok = create(k, s, 0); process<U8>(k, ok, s, 7, 6, 0, 0, 0, 4); }
        } else {
            F f{op - KINDS, type, f.op >= HORIZONTAL && f.op <= CONVOLVE ? 4 : type, 6, 6, 4, 3, 1, 0, B_EXTEND, 0, false, 1, 1.0, 0, 0, -1, 0}; f.out = f.op >= HORIZONTAL && f.op <= CONVOLVE ? 4 : type; Call call(k, f); k.j.b(8); call.bytes(k.j); k.outcome(true); if (type != 7) { k.unchanged(call.iin, call.in, "input"); if (f.op != NCONVOLVE || true) k.unchanged(call.iout, call.out, "output"); }
            if (after) { F g = f; g.in = 0; g.out = f.op >= HORIZONTAL && f.op <= CONVOLVE ? 4 : 0; k.what += ", then GrayU8"; Call ok(k, g); k.j.b(8); ok.bytes(k.j); bool ref = ok.expect_refused(); k.outcome(ref); ok.finish(k, !ref); }
        }
        return;
    }
    F f{}; f.op = c.choose(FOPS, "operation"); bool flt = c.flag("float"), conv = f.op >= HORIZONTAL && f.op <= CONVOLVE; f.in = f.out = flt ? 5 : 0; f.kw = 3; f.ko = 1; f.seed = 5; f.lst = 0; f.radius = 1; f.sigma = -1;
    if (conv) f.out = flt ? c.pick({5, 4, 3}, "output type") : c.pick({3, 4, 0, 5}, "output type"); else if (f.op >= NHORIZONTAL) f.out = c.flag("other output type") ? (flt ? 0 : 4) : f.in;
    if (f.op >= HORIZONTAL) { struct KO { int w, o, extra; }; KO o = c.thorough ? c.pick({KO{1, 0, 0}, KO{2, 0, 0}, KO{2, 1, 0}, KO{3, 1, 0}, KO{3, 0, 2}, KO{3, 2, 0}, KO{4, 1, 0}, KO{5, 2, 0}, KO{3, 3, 0}}, "kernel") : c.pick({KO{1, 0, 0}, KO{2, 1, 0}, KO{3, 1, 0}, KO{3, 0, 2}, KO{4, 1, 0}, KO{3, 3, 0}}, "kernel"); f.kw = o.w; f.ko = o.o; f.extra = o.extra; }
    if (conv) { f.border = c.choose(5, "border"); if (f.border == B_VALUE) f.value = c.pick({0.0, 3.0, 0.25, -0.5}, "border value"); f.other_border = c.flag("border of the other type"); }
    if (f.op == MEAN) f.radius = c.range(-1, 3, "radius");
    if (f.op == GAUSSIAN) { f.radius = c.range(-1, 3, "radius"); f.sigma = c.pick({-1.0, 0.7, 1.9}, "sigma"); }
    if (f.op <= GAUSSIAN) f.lst = (int)c.choose(5, "storage") - 1;
    c.shard();
    f.lin = c.choose(JL, "input array"); f.lout = c.choose(JL, "output array"); f.dw = c.choose(2, "output shape"); int sh = c.choose(c.thorough ? 7 : 3, "shape"); static const int shp[][2] = {{6, 5}, {11, 3}, {66, 34}, {1, 9}, {12, 7}, {9, 1}, {258, 5}}; f.w = shp[sh][0]; f.h = shp[sh][1];
    Case k(c); initialize(k); k.what = text(f); c.describe("%s", k.what.c_str()); c.state(mc::hash_bytes(k.what.data(), k.what.size()));
    Call call(k, f); k.j.b(8); call.bytes(k.j); bool ref = call.expect_refused(); k.outcome(ref); call.finish(k, !ref);
}
#else
// two calls from two threads: of the installed filters, or making and using a threshold filter or a contour finder of one's own
struct Job {
    int kind; F f{}; T t{}; int mi = 0, ma = 0x7fffffff; bool save = true, eight = false; int w = 7, h = 6; uint32_t seed = 4; std::unique_ptr<Call> call; int ii = 0, io = 0, id = 0; JI in, out; bool flt = false, refused = false; std::vector<U8> px;   // kind 0 filter, 1 threshold, 2 contours
    std::string name() const { if (kind == 0) return text(f); if (kind == 1) return text(t) + (flt ? " of GrayF32" : " of GrayU8"); char b[100]; snprintf(b, sizeof b, "chang2004 rule %d, save %d, limits %d..%d", eight, save, mi, ma); return b; }
    template<class E> void threshold(Case& k, bool judge) {
        auto v = values<E>(w, h, seed); if (!judge) { in = blank(jtype<E>(), w, h, 0, seed); put<E>(in, v); out = blank(0, w, h, 0, seed + 5); ii = new_image(k.j, in); io = new_image(k.j, out); return; }
        auto q = library<E>(t); Gray<E> gi = plain(v, w, h); Gray<U8> go(w, h); q->process(gi, go); k.unchanged(ii, in, "input"); k.output<U8>(io, out, w, h, pixels_of(go));
    }
    void prepare(Case& k) {
        if (kind == 0) { call.reset(new Call(k, f)); refused = call->expect_refused(); return; } if (kind == 1) { if (flt) threshold<F32>(k, false); else threshold<U8>(k, false); return; }
        px.resize(w * h); for (int i = 0; i < w * h; i++) px[i] = mc::mix(seed, i) % 3 != 0; in = blank(0, w, h, 0, 3); put<U8>(in, px); out = blank(4, w, h, 0, 5); ii = new_image(k.j, in); io = new_image(k.j, out); id = k.j.next_id++;
    }
    void bytes(Java& j) {
        if (kind == 0) { call->bytes(j); return; }
        if (kind == 1) { j.b(9); j.b(t.kind); j.b(flt ? 5 : 0); j.b(t.down); j.b(t.local); j.b(t.otsu2); j.d(t.a); j.d(t.b); j.d(t.len.length); j.d(t.len.fraction); j.i(ii); j.i(io); return; }
        j.b(10); j.i(id); j.i(mi); j.i(ma); j.b(save); j.b(eight); j.i(ii); j.i(io);
    }
    void finish(Case& k) {
        if (kind == 0) { call->finish(k, !refused); return; } if (kind == 1) { if (flt) threshold<F32>(k, true); else threshold<U8>(k, true); return; }
        LinearContourLabelChang2004 lib(eight ? ConnectRule::EIGHT : ConnectRule::FOUR); lib.minContourSize = mi; lib.maxContourSize = ma; lib.saveInternalContours = save; Gray<U8> gi = plain(px, w, h); Gray<S32> gl(w, h); lib.process(gi, gl); k.unchanged(ii, in, "binary"); k.output<S32>(io, out, w, h, pixels_of(gl), "label"); check_chang(k, id, lib, false); getters(k, id, mi, ma, save, eight);
    }
};
const int FILTERS = 19, THRESHOLDS = 12, FINDERS = 2, JOBS = FILTERS + THRESHOLDS + FINDERS;
static Job choose_job(mc::Ctx& c, int q, bool second) {
    Job x{}; if (q < FILTERS) {
        struct P { int op, in, out; }; static const P p[] = {{MEAN, 0, 0}, {MEAN, 5, 5}, {GAUSSIAN, 0, 0}, {GAUSSIAN, 5, 5}, {HORIZONTAL, 0, 3}, {HORIZONTAL, 0, 4}, {HORIZONTAL, 5, 5}, {VERTICAL, 0, 3}, {VERTICAL, 0, 4}, {VERTICAL, 5, 5}, {CONVOLVE, 0, 3}, {CONVOLVE, 0, 4}, {CONVOLVE, 5, 5}, {NHORIZONTAL, 0, 0}, {NHORIZONTAL, 5, 5}, {NVERTICAL, 0, 0}, {NVERTICAL, 5, 5}, {HORIZONTAL, 0, 0}, {MEAN, 3, 3}};
        x.kind = 0; F& f = x.f; f.op = p[q].op; f.in = p[q].in; f.out = p[q].out; f.w = second ? 7 : 6; f.h = 5; f.seed = second ? 8 : 5; f.kw = 3; f.ko = 1; f.border = second ? B_WRAP : B_EXTEND; f.radius = second ? 2 : 1; f.sigma = -1; f.lst = -1;
    } else if (q < FILTERS + THRESHOLDS) {
        x.kind = 1; q -= FILTERS; x.t.kind = q / 2; x.flt = q % 2; x.t.down = !second; x.t.len = second ? ConfigLength(4, -1) : ConfigLength(3, -1); x.t.a = x.t.kind == FIXED ? (second ? 150 : 100) : x.t.kind == OTSU ? 0 : second ? 0.95 : 1.0; x.t.b = x.t.kind == OTSU ? 255 : second ? 2.0 : 0.1; x.t.local = second; x.w = second ? 9 : 7; x.seed = second ? 5 : 4;
    } else { x.kind = 2; x.eight = (q & 1) != second; x.save = !second || q & 1; x.mi = second ? 0 : 2; x.w = second ? 8 : 7; x.seed = second ? 9 : 4; }
    return x;
}
static void body(mc::Ctx& c) {
    int left = 1 + c.choose(c.thorough ? 3 : 2, "preemption bound"); int qa = c.choose(JOBS, "first call"), qb = c.thorough ? c.choose(JOBS, "second call") : qa + c.choose(JOBS - qa, "second call"); Job x[2] = {choose_job(c, qa, false), choose_job(c, qb, true)};
    c.shard(); Case k(c); initialize(k); k.what = x[0].name() + " and in another thread " + x[1].name(); c.describe("%s", k.what.c_str());
    for (Job& q : x) q.prepare(k); k.j.b(30); k.j.i((left * JOBS + qa) * JOBS + qb); k.j.i(2); for (Job& q : x) q.bytes(k.j); k.j.send();
    int cur = -1; int used = 0; uint64_t h = mc::hash_bytes(k.what.data(), k.what.size()); int n = 0;
    for (;;) {
        int r = k.j.rb(); if (r != 9) { if (r) { std::string e = k.j.rs(); e += " " + k.j.rs(); c.fail("schedule", "%s: %s", k.what.c_str(), e.c_str()); } break; }
        bool en[2]; for (bool& e : en) e = k.j.rb(); int pick; c.step(); n++;
        if (cur >= 0 && en[cur]) { if (left > 0 && en[!cur]) { if (c.flag("preempt")) { pick = !cur; left--; used++; } else pick = cur; } else pick = cur; }
        else if (en[0] && en[1]) pick = c.choose(2, "thread"); else pick = en[0] ? 0 : 1;
        cur = pick; h = mc::mix(h, pick); c.state(mc::mix(h, n)); k.j.b(pick); k.j.send();
    }
    std::string e[2]; for (auto& s : e) s = k.j.rs(); std::string head = k.what;
    for (int i = 0; i < 2; i++) {
        Job& q = x[i]; k.what = head + (i ? ": second call" : ": first call"); c.s->checks.fetch_add(1, std::memory_order_relaxed);
        if (q.refused && e[i].empty()) c.fail("not-refused", "%s is refused alone but was accepted with the other thread in between", k.what.c_str());
        if (!q.refused && !e[i].empty()) c.fail("refused", "%s works alone but failed with the other thread in between: %s", k.what.c_str(), e[i].c_str());
        if (q.kind == 0 && q.f.in == 3) continue; q.finish(k);
    }
}
#endif
void mc_body(mc::Ctx& c) { try { body(c); } catch (JavaEnd& e) { c.fail("machine-ended", "the Java machine ended: %s", e.what.c_str()); } }
