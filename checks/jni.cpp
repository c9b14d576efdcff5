// C27/C28: every filter of the Java bridge on a simulated Java machine.
//  C27: all settings x layouts of every array x copying or pinning machine, sequences of calls on two filter objects; results equal the library's.
//  C38: the same calls repeated, and images with many blobs and points; the references to Java objects are counted.
//  C28: the same calls with legal and illegal arguments and a failure injected at every step (thorough: every pair of steps) that may fail.
#if PROP == 28
#define VERIF_FAULTS
#endif
#include "bridge.h"
#include "threshold_block_filters.h"
#include "binary_ops.h"
#include "image_blur.h"
#include "convolve.h"
#include "contour.h"
using namespace boofcv;
#if PROP == 27
const char* mc_property = "C27";
#elif PROP == 28
#include "fault_new.h"
const char* mc_property = "C28";
#else
const char* mc_property = "C38";
#endif
typedef std::function<void()> Fn; typedef std::function<void(bool)> FnB;
// one native call: prepare the outputs, call it, check the outcome. refused: the library does not accept the arguments
struct Phase { std::string name; Fn prepare, invoke, verify; bool refused; FnB always; };
typedef std::vector<Phase> Phases;

static Obj* config_length(Bridge& b, const ConfigLength& l) { Obj* o = b.j.make("boofcv/struct/ConfigLength"); o->get("length").d = l.length; o->get("fraction").d = l.fraction; return o; }
template<class E> static std::vector<E> values(uint32_t w, uint32_t h, uint32_t seed) {
    std::vector<E> v(w * h); uint32_t s = seed * 7919 + 31; for (uint32_t i = 0; i < w * h; i++) { uint32_t r = lcg(s); v[i] = (E)(20 + (seed % 2 ? ((i % w) * 30 + r % 60) % 216 : r % 216)); if (std::is_floating_point<E>::value) v[i] = (E)(v[i] * 0.97); }
    return v;
}
template<class E> static Gray<E> plain(const std::vector<E>& v, uint32_t w, uint32_t h) { Gray<E> g(w, h); for (uint32_t i = 0; i < w * h; i++) g.data[i] = v[i]; return g; }
template<class E> static std::vector<E> pixels_of(const Gray<E>& g) { std::vector<E> v; for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) v.push_back(g.at(x, y)); return v; }

// ---------------------------------------------------------------- thresholds
enum { FIXED, OTSU, LOCAL, BMEAN, BMINMAX, BOTSU, KINDS };
static const char* const kind_name[] = {"GlobalFixed", "GlobalOtsu", "LocalMean", "BlockMean", "BlockMinMax", "BlockOtsu"};
struct Settings { int kind; ConfigLength len; bool down, local, otsu2; double a, b; };       // a: threshold, scale or min; b: max, spread or tuning
static std::string text(const Settings& s) { char t[200]; snprintf(t, sizeof t, "%s(length %g/%g, down %d, local %d, otsu2 %d, a %g, b %g)", kind_name[s.kind], s.len.length, s.len.fraction, s.down, s.local, s.otsu2, s.a, s.b); return t; }
template<class E> static std::unique_ptr<InputToBinary<Gray<E>>> library(const Settings& s) {
    typedef std::unique_ptr<InputToBinary<Gray<E>>> P;
    switch (s.kind) {
        case FIXED: return P(new GlobalFixedBinaryFilter<E>((E)s.a, s.down));
        case OTSU: return P(new GlobalOtsuBinaryFilter<E>((E)s.a, (E)s.b, s.down));
        case LOCAL: return P(new LocalMeanBinaryFilter<E>(s.len, s.a, s.down));
        case BMEAN: return P(new ThresholdBlockMean<E>(s.len, s.local, s.a, s.down));
        case BMINMAX: return P(new ThresholdBlockMinMax<E>((float)s.b, s.len, s.local, (float)s.a, s.down));
        default: return P(new ThresholdBlockOtsu<E>(s.otsu2, s.len, s.b, s.a, s.down, s.local));
    }
}
static std::string method(const Settings& s, const char* m) { return std::string("Java_org_boofcpp_threshold_Native") + kind_name[s.kind] + "_native" + m; }
static void init(Bridge& b, Obj* self, const Settings& s) {
    jobject len = b.ref(config_length(b, s.len)); jboolean d = s.down, l = s.local, o = s.otsu2; jdouble a = s.a, q = s.b; std::string n = method(s, "init");
    switch (s.kind) {
        case FIXED: b.call<void>(n.c_str(), self, a, d); break;
        case OTSU: b.call<void>(n.c_str(), self, a, q, d); break;
        case LOCAL: b.call<void>(n.c_str(), self, len, a, d); break;
        case BMEAN: b.call<void>(n.c_str(), self, len, a, d, l); break;
        case BMINMAX: b.call<void>(n.c_str(), self, len, a, d, q, l); break;
        default: b.call<void>(n.c_str(), self, o, len, q, a, d, l);
    }
}
static Obj* base_object(Bridge& b, bool integer, int inbits = 0, int outbits = 0) { Obj* o = b.j.make("org/boofcpp/NativeBase"); o->get("isInteger").j = integer; o->get("inputBits").j = inbits; o->get("outputBits").j = outbits; return o; }
template<class E> static void process_phase(Bridge& b, Phases& p, Obj* self, const Settings& s, uint32_t w, uint32_t h, int lin, int lout, uint32_t seed, int dw) {
    auto in = std::make_shared<JImg<E>>(b, w, h, lin, seed); auto out = std::make_shared<JImg<U8>>(b, w + dw, h, lout, seed + 50); std::vector<E> px = values<E>(w, h, seed); in->set(px);
    auto want = std::make_shared<std::vector<U8>>(); bool refused = false;
    { auto f = library<E>(s); Gray<E> gi = plain(px, w, h); std::vector<U8> buf((w + dw) * h); Gray<U8> go(buf.data(), (w + dw) * h, w + dw, h, 0, w + dw); try { f->process(gi, go); *want = pixels_of(go); } catch (std::exception&) { refused = true; } }
    Phase q; char t[100]; snprintf(t, sizeof t, "process %ux%u (arrays %d,%d)", w, h, lin, lout); q.name = t; q.refused = refused;
    q.prepare = [=]() { out->garbage_fill(seed + 50); };
    q.invoke = [&b, self, s, in, out]() { b.call<void>(method(s, "process").c_str(), self, b.ref(in->img), b.ref(out->img)); };
    q.verify = [=]() { out->check(*want, "output"); };
    q.always = [&b, in, out](bool must) { in->check_unchanged("input"); out->check_outside("output"); b.released(in->arr, false, "input", must); b.released(out->arr, true, "output", must); };
    p.push_back(q);
}
static Phase destroy_phase(Bridge& b, Obj* self, const Settings& s, const char* name) {
    Phase q; q.name = name; q.refused = false; q.invoke = [&b, self, s]() { b.call<void>(method(s, "destroy").c_str(), self); }; return q;
}
static Phase init_phase(Bridge& b, Obj* self, const Settings& s) {
    Phase q; q.name = "init"; q.refused = false; q.invoke = [&b, self, s]() { init(b, self, s); };
    q.verify = [&b, self]() { if (!self->get("nativePtr").j) b.c.fail("no-object", "%s: init left no native object", b.what.c_str()); };
    return q;
}
// ---------------------------------------------------------------- blur, convolution
struct Filter { int op; bool integer; int out_bits; uint32_t kw, ko; int border, radius; double sigma; int extra, dw; int broken; };
enum { MEAN, GAUSSIAN, HORIZONTAL, VERTICAL, CONVOLVE, NHORIZONTAL, NVERTICAL, FOPS };
static const char* const fop_name[] = {"nativeMean", "nativeGaussian", "nativeHorizontal", "nativeVertical", "nativeConvolve", "nativehorizontal", "nativevertical"};
static bool border_of(int code, BorderType& t) { switch (code) { case 1: t = BorderType::EXTENDED; return true; case 3: t = BorderType::REFLECT; return true; case 4: t = BorderType::WRAP; return true; case 5: t = BorderType::ZERO; return true; } return false; }
template<class K> static Obj* java_kernel(Bridge& b, const Filter& f, const std::vector<K>& v) {
    bool two = f.op == CONVOLVE, fl = std::is_floating_point<K>::value;
    Obj* o = b.j.make(two ? fl ? "boofcv/struct/convolve/Kernel2D_F32" : "boofcv/struct/convolve/Kernel2D_S32" : fl ? "boofcv/struct/convolve/Kernel1D_F32" : "boofcv/struct/convolve/Kernel1D_S32");
    int len = (int)v.size() + f.extra; if (len < 0) len = 0; Obj* a = b.j.array(fl ? 'F' : 'I', len);
    for (int i = 0; i < len; i++) a->as<K>()[i] = i < (int)v.size() ? v[i] : (K)(1000 + i);
    o->get("data").o = a; o->get("width").j = f.broken == 1 ? -1 : (int)f.kw; o->get("offset").j = f.ko; return o;
}
template<class E, class O, class K> static void library_convolve(const Filter& f, const std::vector<K>& kv, Gray<E>& gi, Gray<O>& go) {
    BorderType t; if (!border_of(f.border, t)) throw std::invalid_argument("border");
    auto bd = FactoryImageBorder::create_SB<E>(t); bd->setImage(gi);
    if (f.op == CONVOLVE) { Kernel2D<K> k(f.kw, f.ko); for (size_t i = 0; i < kv.size(); i++) k.data[i] = kv[i]; ConvolveImage::convolve(k, *bd, go); return; }
    Kernel1D<K> k(f.kw, f.ko); for (size_t i = 0; i < kv.size(); i++) k.data[i] = kv[i];
    if (f.op == HORIZONTAL) ConvolveImage::horizontal(k, *bd, go); else ConvolveImage::vertical(k, *bd, go);
}
template<class E, class K> static void library_same(const Filter& f, const std::vector<K>& kv, Gray<E>& gi, Gray<E>& go) {
    Gray<E> gs(gi.width, gi.height);
    if (f.op == MEAN) BlurImageOps::mean(gi, go, (uint32_t)f.radius, gs);
    else if (f.op == GAUSSIAN) BlurImageOps::gaussian(gi, go, f.sigma, f.radius > 0 ? 2 * f.radius + 1 : -1, gs);
    else { Kernel1D<K> k(f.kw, f.ko); for (size_t i = 0; i < kv.size(); i++) k.data[i] = kv[i]; if (f.op == NHORIZONTAL) ConvolveNormalized::horizontal(k, gi, go); else ConvolveNormalized::vertical(k, gi, go); }
}
template<class E, class O, class K> struct Library { static void run(const Filter& f, const std::vector<K>& kv, Gray<E>& gi, Gray<O>& go) { library_convolve<E, O, K>(f, kv, gi, go); } };
template<> struct Library<U8, U8, S32> { static void run(const Filter& f, const std::vector<S32>& kv, Gray<U8>& gi, Gray<U8>& go) { library_same<U8, S32>(f, kv, gi, go); } };
template<> struct Library<F32, F32, F32> { static void run(const Filter& f, const std::vector<F32>& kv, Gray<F32>& gi, Gray<F32>& go) { if (f.op >= HORIZONTAL && f.op <= CONVOLVE) library_convolve<F32, F32, F32>(f, kv, gi, go); else library_same<F32, F32>(f, kv, gi, go); } };
template<class E, class O, class K> static void filter_phase(Bridge& b, Phases& p, const Filter& f, uint32_t w, uint32_t h, int lin, int lout, int lst, uint32_t seed) {
    auto in = std::make_shared<JImg<E>>(b, w, h, lin, seed); auto out = std::make_shared<JImg<O>>(b, w + f.dw, h, lout, seed + 50); auto st = std::make_shared<JImg<E>>(b, w, h, lst, seed + 80);
    std::vector<E> px = values<E>(w, h, seed); in->set(px); bool conv = f.op >= HORIZONTAL, norm = f.op >= NHORIZONTAL;
    std::vector<K> kv(f.op == CONVOLVE ? f.kw * f.kw : f.kw); for (size_t i = 0; i < kv.size(); i++) kv[i] = (K)((norm ? 1 : -2) + (int)((i * 5 + 1) % 4)) * (K)(std::is_floating_point<K>::value ? 0.75 : 1);
    Obj* self = base_object(b, f.integer, f.broken == 2 ? 24 : f.integer ? 8 : 32, f.broken == 3 ? 24 : f.out_bits); Obj* jk = conv ? java_kernel<K>(b, f, kv) : nullptr;
    auto want = std::make_shared<std::vector<O>>(); bool refused = f.broken || (conv && f.extra < 0) || (f.op == MEAN && f.radius < 0);
    if (!refused) {
        Gray<E> gi = plain(px, w, h); std::vector<O> buf((w + f.dw) * h); Gray<O> go(buf.data(), (uint32_t)buf.size(), w + f.dw, h, 0, w + f.dw);
        try { Library<E, O, K>::run(f, kv, gi, go); *want = pixels_of(go); } catch (std::exception&) { refused = true; }
    }
    Phase q; char t[160]; snprintf(t, sizeof t, "%s %s %ux%u->%d bit (kernel %u/%u, border %d, radius %d, sigma %g, arrays %d,%d,%d, extra %d, output +%d, broken %d)", fop_name[f.op], f.integer ? "integer" : "float", w, h, f.out_bits, f.kw, f.ko, f.border, f.radius, f.sigma, lin, lout, lst, f.extra, f.dw, f.broken); q.name = t; q.refused = refused;
    q.prepare = [=]() { out->garbage_fill(seed + 50); st->garbage_fill(seed + 80); };
    q.invoke = [&b, f, self, in, out, st, jk]() {
        jobject ji = b.ref(in->img), jo = b.ref(out->img); std::string n = std::string("Java_org_boofcpp_convolve_") + (f.op <= GAUSSIAN ? "NativeImageBlurOps_" : f.op <= CONVOLVE ? "NativeConvolveImage_" : "NativeImageConvolveNormalized_") + fop_name[f.op];
        if (f.op == MEAN) b.call<void>(n.c_str(), self, ji, jo, (jint)f.radius, b.ref(st->img));
        else if (f.op == GAUSSIAN) b.call<void>(n.c_str(), self, ji, jo, (jdouble)f.sigma, (jint)f.radius, b.ref(st->img));
        else if (f.op <= CONVOLVE) b.call<void>(n.c_str(), self, b.ref(jk), ji, jo, (jint)f.border);
        else b.call<void>(n.c_str(), self, b.ref(jk), ji, jo);
    };
    q.verify = [=]() { out->check(*want, "output"); };
    std::vector<uint8_t> kb; Obj* ka = jk ? jk->get("data").o : nullptr; if (ka) kb.assign(ka->data, ka->data + ka->bytes());
    q.always = [&b, f, in, out, st, ka, kb](bool must) {
        in->check_unchanged("input"); out->check_outside("output"); b.released(in->arr, false, "input", must); b.released(out->arr, true, "output", must);
        if (f.op <= GAUSSIAN) st->check_outside("storage"); else st->check_unchanged("unused");
        if (ka && memcmp(kb.data(), ka->data, kb.size())) b.c.fail("input-changed", "%s: the kernel was changed", b.what.c_str());
    };
    p.push_back(q);
}
// ---------------------------------------------------------------- contour finder
#include "chang.h"
static void chang_phases(Bridge& b, Phases& p, std::vector<std::shared_ptr<void>>& keep, int image, int layout, bool broken_rule, int block_length) {
    auto ch = std::make_shared<Chang>(b, 1, 0, 0, 0, block_length); auto lib = std::make_shared<LinearContourLabelChang2004>(ConnectRule::FOUR); lib->maxContourSize = 0x7fffffff; keep.push_back(ch);
    Phase q; q.refused = false; q.name = "native_init"; q.invoke = [&b, ch]() { b.call<void>(CHANG("native_1init"), ch->self); }; q.verify = [&b, ch]() { if (!ch->self->get("nativePtr").j) b.c.fail("no-object", "native_init left no native object"); }; p.push_back(q);
    auto set = [&](const char* n, Fn f, Fn v) { Phase s; s.name = n; s.refused = false; s.invoke = f; s.verify = v; p.push_back(s); };
    auto ri = std::make_shared<jint>(); auto ro = std::make_shared<jobject>(); auto rr = std::make_shared<Obj*>();
    set("setMinContour", [&b, ch]() { b.call<void>(CHANG("setMinContour"), ch->self, (jint)2); }, nullptr);
    set("getMinContour", [&b, ch, ri]() { *ri = b.call<jint>(CHANG("getMinContour"), ch->self); }, [&b, ri]() { if (*ri != 2) b.c.fail("getter", "getMinContour returned %d after setMinContour(2)", *ri); });
    set("setMaxContour", [&b, ch]() { b.call<void>(CHANG("setMaxContour"), ch->self, (jint)500); }, nullptr);
    set("getMaxContour", [&b, ch, ri]() { *ri = b.call<jint>(CHANG("getMaxContour"), ch->self); }, [&b, ri]() { if (*ri != 500) b.c.fail("getter", "getMaxContour returned %d after setMaxContour(500)", *ri); });
    set("setSaveInnerContour", [&b, ch]() { b.call<void>(CHANG("setSaveInnerContour"), ch->self, (jboolean)1); }, nullptr);
    set("isSaveInternalContours", [&b, ch, ri]() { *ri = b.call<jboolean>(CHANG("isSaveInternalContours"), ch->self); }, [&b, ri]() { if (!*ri) b.c.fail("getter", "isSaveInternalContours returned false after setSaveInnerContour(true)"); });
    Obj* third = b.j.make("boofcv/struct/ConnectRule"); third->get("value").j = 2;
    if (broken_rule) { Phase s; s.name = "setConnectRule(unknown)"; s.refused = true; s.invoke = [&b, ch, third]() { b.call<void>(CHANG("setConnectRule"), ch->self, b.ref(third)); }; p.push_back(s); }
    set("setConnectRule", [&b, ch]() { b.call<void>(CHANG("setConnectRule"), ch->self, b.ref(ch->eight)); }, nullptr);
    set("getConnectRule", [&b, ch, rr]() { *rr = nullptr; jobject o = b.call<jobject>(CHANG("getConnectRule"), ch->self); (void)o; *rr = b.j.last_object; }, [&b, ch, rr]() { if (*rr != ch->eight) b.c.fail("getter", "getConnectRule did not return EIGHT after setConnectRule(EIGHT)"); });
    for (int k = 0; k < 2; k++) {
        uint32_t w = k ? 5 : 6, h = 5; auto in = std::make_shared<JImg<U8>>(b, w, h, layout, 3); auto lab = std::make_shared<JImg<S32>>(b, w + (image == 2 ? 1 : 0), h, layout, 4); keep.push_back(in); keep.push_back(lab);
        std::vector<U8> px(w * h); uint32_t s = image * 77 + k; for (auto& v : px) v = image == 0 ? 0 : k == 0 && image == 1 ? 1 : lcg(s) % 3 != 0; if (image == 1 && k == 0) px[w + 1] = px[w + 3] = px[3 * w + 2] = 0; in->set(px);
        Phase s2; s2.name = "native_process"; s2.refused = image == 2 || block_length != 4000;
        s2.prepare = [lab]() { lab->garbage_fill(4); }; s2.invoke = [ch, in, lab]() { ch->process(*in, *lab); };
        s2.verify = [&b, ch, lib, in, lab, px, w, h]() {
            lib->minContourSize = 2; lib->maxContourSize = 500; lib->saveInternalContours = true; lib->setConnectRule(ConnectRule::EIGHT);
            Gray<U8> gi = plain(px, w, h); Gray<S32> gl(w, h); lib->process(gi, gl); lab->check(pixels_of(gl), "label"); ch->compare(*lib);
        };
        s2.always = [&b, in, lab](bool must) { in->check_unchanged("binary"); lab->check_outside("label"); b.released(in->arr, false, "binary", must); b.released(lab->arr, true, "label", must); };
        p.push_back(s2);
    }
    set("native_destroy", [&b, ch]() { b.call<void>(CHANG("native_1destroy"), ch->self); }, [&b, ch]() { if (ch->self->get("nativePtr").j) b.c.fail("destroyed-twice", "native_destroy left a pointer to the destroyed object, a second call would destroy it again"); });
    set("native_destroy again", [&b, ch]() { b.call<void>(CHANG("native_1destroy"), ch->self); }, nullptr);
}
// ---------------------------------------------------------------- the calls of one configuration
struct Config { int group; Settings s; bool flt; Filter f; int image; uint32_t w, h; int lin, lout, lst; uint32_t seed; int dw; bool broken_rule; int block_length; bool copies; };
static void build(Bridge& b, const Config& k, Phases& p, std::vector<std::shared_ptr<void>>& keep) {
    if (k.group == 0) {
        Obj* a = base_object(b, !k.flt, k.flt ? 32 : 8, 8); p.push_back(init_phase(b, a, k.s));
        auto proc = [&](Obj* o, const Settings& s, uint32_t w, uint32_t h, int li, int lo, uint32_t seed, int dw) { if (k.flt) process_phase<F32>(b, p, o, s, w, h, li, lo, seed, dw); else process_phase<U8>(b, p, o, s, w, h, li, lo, seed, dw); };
        proc(a, k.s, k.w, k.h, k.lin, k.lout, k.seed, k.dw);
#if PROP == 27
        // a second object with other settings, used in between
        Settings t = k.s; t.down = !t.down; t.local = !t.local; t.a = t.kind == FIXED ? 180 : t.kind == OTSU ? t.a : 1.3 - t.a; t.len = ConfigLength(4, -1);
        Obj* o = base_object(b, !k.flt, k.flt ? 32 : 8, 8); p.push_back(init_phase(b, o, t)); proc(o, t, 9, 8, k.lout, k.lin, k.seed + 1, 0); proc(a, k.s, 9, 11, k.lout, k.lin, k.seed + 2, 0); p.push_back(destroy_phase(b, o, t, "destroy the second object")); proc(a, k.s, k.w, k.h, 0, 0, k.seed + 3, 0);
#else
        proc(a, k.s, 9, 11, 0, 1, k.seed + 2, 0);
#endif
        p.push_back(destroy_phase(b, a, k.s, "destroy")); p.push_back(destroy_phase(b, a, k.s, "destroy again"));
    } else if (k.group == 1) {
        if (!k.f.integer) filter_phase<F32, F32, F32>(b, p, k.f, k.w, k.h, k.lin, k.lout, k.lst, k.seed);
        else if (k.f.op < HORIZONTAL || k.f.op > CONVOLVE) filter_phase<U8, U8, S32>(b, p, k.f, k.w, k.h, k.lin, k.lout, k.lst, k.seed);
        else if (k.f.out_bits == 16) filter_phase<U8, S16, S32>(b, p, k.f, k.w, k.h, k.lin, k.lout, k.lst, k.seed);
        else filter_phase<U8, S32, S32>(b, p, k.f, k.w, k.h, k.lin, k.lout, k.lst, k.seed);
    } else chang_phases(b, p, keep, k.image, k.lin, k.broken_rule, k.block_length);
}
// runs one call and judges it
static void perform(Bridge& b, Phase& q, const std::string& head) {
    mc::Ctx& c = b.c; bool faulty = !b.j.faults.empty(); b.what = head + q.name; if (q.prepare) q.prepare(); b.j.pending = nullptr; fault::count = 0; q.invoke();
    bool failed = b.j.pending != nullptr; c.s->checks.fetch_add(1, std::memory_order_relaxed);
    bool hit = (faulty && b.j.faults_hit) || fault::failed; b.j.pending = nullptr; if (fault::failed) b.j.fault_what += "a native memory allocation fails";
    if (q.always) q.always(!failed);
    if (!hit && q.refused && !failed) c.fail("silent-failure", "%s: the library refuses these arguments, but the Java caller sees no exception", b.what.c_str());
    if (!hit && !q.refused && failed) c.fail("refusal", "%s: the library accepts these arguments, but the Java caller sees an exception (%s)", b.what.c_str(), b.j.pending_what.c_str());
    if (hit && q.refused && !failed) c.fail("silent-failure", "%s: %s but the Java caller sees no exception", b.what.c_str(), b.j.fault_what.c_str());
    if (!failed && !q.refused && q.verify) q.verify();          // a call that reports no failure has done its work
}
static Config choose_config(mc::Ctx& c);
#if PROP == 38
// the smallest table of references of a Java machine in use: Android's for local references
const size_t LIMIT = 512;
static void counted(Bridge& b) { b.c.s->checks.fetch_add(1, std::memory_order_relaxed); if (b.j.max_local_refs > LIMIT) b.c.fail("local-references", "%s: the call held %zu local references to Java objects at once, a machine may have room for %zu", b.what.c_str(), b.j.max_local_refs, LIMIT); b.c.state(mc::mix(b.j.max_local_refs, b.what.size())); b.j.max_local_refs = 0; }
// blobs with 0, 1, 2, ... holes (sparse: only few distinct numbers), single pixels, and long lines for so many blocks of 2000 points
static void many(mc::Ctx& c) {
    int holes = c.pick({0, 1, 30, 300, 600}, "blobs with holes"), order = c.choose(3, "order"), single = c.pick({0, 1, 511, 512, 600, 5000}, "single pixels"), blocks = c.thorough ? c.pick({0, 1, 2, 3, 255, 256, 511, 512, 513, 1100}, "blocks of points") : c.pick({0, 2, 520}, "blocks of points"); bool save = !c.flag("no internal contours"), copies = !c.flag("pinning"); if (order && holes < 2) return; int limits = c.choose(3, "limits"); c.shard();
    std::vector<int> hs; for (int i = 0; i < holes; i++) hs.push_back(order == 0 ? i : order == 1 ? holes - 1 - i : i % 7);
    // rows of at most 2000 pixels: ladders, then single pixels, then lines of 1000 pixels with 2000 points... each
    const uint32_t W = 2003; std::vector<std::pair<uint32_t, std::pair<uint32_t, int>>> at; uint32_t x = 1, y = 1; for (int n : hs) { uint32_t len = 2 * n + 1; if (x + len + 1 > W) { x = 1; y += 4; } at.push_back({x, {y, n}}); x += len + 1; }
    y += 5; uint32_t y1 = y; y += 2 * ((single + 999) / 1000); uint32_t y2 = y; y += 2 * ((blocks + 1) / 2); uint32_t H = y + 1;
    Bridge b(c, copies); char t[200]; snprintf(t, sizeof t, "%d blobs with holes (order %d), %d single pixels, %d blocks of points, internal contours %d, limits %d", holes, order, single, blocks, save, limits); b.what = t; c.describe("%s", t);
    std::vector<U8> px(W * H); for (auto& q : at) for (int r = 0; r < 3; r++) for (int i = 0; i < 2 * q.second.second + 1; i++) px[(q.second.first + r) * W + q.first + i] = r != 1 || i % 2 == 0;
    for (int i = 0; i < single; i++) px[(y1 + 2 * (i / 1000)) * W + 1 + 2 * (i % 1000)] = 1; for (int i = 0; i < (blocks + 1) / 2; i++) for (int k = 0; k < 2000; k++) px[(y2 + 2 * i) * W + 1 + k] = 1;
    Chang ch(b, 1, 0, 0, 0); b.call<void>(CHANG("native_1init"), ch.self); counted(b); b.call<void>(CHANG("setSaveInnerContour"), ch.self, (jboolean)save); counted(b); if (limits == 1) b.call<void>(CHANG("setMaxContour"), ch.self, (jint)0); if (limits == 2) b.call<void>(CHANG("setMinContour"), ch.self, (jint)12); counted(b);
    JImg<U8> in(b, W, H, 0, 1); in.set(px); JImg<S32> lab(b, W, H, 0, 2); ch.process(in, lab); if (b.j.pending) c.fail("refusal", "%s: the call ended with a Java exception (%s)", t, b.j.pending_what.c_str()); counted(b);
    size_t want = hs.size() + single + (blocks + 1) / 2; if (jvm::contour_log().size() != want) c.fail("blobs", "%s: Java was told of %zu blobs, there are %zu", t, jvm::contour_log().size(), want);
    b.call<void>(CHANG("native_1destroy"), ch.self); counted(b);
}
void mc_body(mc::Ctx& c) {
    if (c.flag("one large image")) { many(c); return; }
    Config k = choose_config(c); c.shard(); const int rounds = c.thorough ? 120 : 30, settled = 10; Bridge b(c, k.copies); std::string head = (k.group == 0 ? text(k.s) + (k.flt ? " float " : " integer ") : std::string()) + (k.copies ? "copying machine " : "pinning machine "); c.describe("%s, %d times", head.c_str(), rounds); size_t before = 0;
    Phases p; std::vector<std::shared_ptr<void>> keep; build(b, k, p, keep);
    for (int r = 0; r < rounds; r++) {
        for (auto& q : p) { perform(b, q, head); counted(b); }
        if (r == settled) before = Jvm::globals();
    }
    c.s->checks.fetch_add(1, std::memory_order_relaxed); size_t now = Jvm::globals(); if (now >= before + (rounds - settled - 1)) c.fail("global-references", "%s%s: %zu global references to Java objects after %d rounds of the same calls, %zu after %d", head.c_str(), p.back().name.c_str(), now, rounds, before, settled + 1);
}
#else
void mc_body(mc::Ctx& c) {
    Config k = choose_config(c); c.shard(); std::string head = (k.group == 0 ? text(k.s) + (k.flt ? " float " : " integer ") : std::string()) + (k.copies ? "copying machine " : "pinning machine ");
    if (c.verbose) c.describe("%s", head.c_str());
    uint64_t h = mc::mix(k.group * 131 + k.s.kind * 7 + k.f.op, k.w * 64 + k.h + k.lin * 8 + k.lout * 3 + k.lst);
    int faulty_phase = -1; std::vector<std::pair<int, int>> faults;
#if PROP == 28
    // the failure: learned from a run without one
    std::vector<std::vector<int>> steps; std::vector<uint64_t> memory; fault::plan(~0ull, false);
    {
        Bridge b(c, k.copies); Phases p; std::vector<std::shared_ptr<void>> keep; build(b, k, p, keep);
        for (auto& q : p) { b.what = head + q.name; if (q.prepare) q.prepare(); b.j.pending = nullptr; fault::count = 0; q.invoke(); steps.push_back(b.j.steps); memory.push_back(fault::count); }
    }
    faulty_phase = (int)c.choose((uint32_t)steps.size() + 1, "call that fails") - 1;
    uint64_t lost = ~0ull; bool later = false;
    if (faulty_phase >= 0 && c.flag("native memory")) {
        if (!memory[faulty_phase]) return;
        lost = c.choose((uint32_t)memory[faulty_phase], "allocation that fails"); later = c.flag("and all later ones"); h = mc::mix(h, faulty_phase * 10007 + lost * 2 + later + 500009); c.describe("allocation %llu of call %d fails%s", (unsigned long long)lost, faulty_phase, later ? " and all later ones" : "");
    } else if (faulty_phase >= 0) {
        auto& st = steps[faulty_phase]; if (st.empty()) return;
        int s1 = (int)c.choose((uint32_t)st.size(), "step that fails"), way = (int)c.choose((uint32_t)st[s1], "way it fails"); faults.push_back({s1, way}); h = mc::mix(h, faulty_phase * 10007 + s1 * 4 + way + 1);
        // a second failure among the steps taken after the first (e.g. while the first is being reported)
        int second = (int)c.choose(c.thorough ? 9 : 3, "second failure"); if (second) { faults.push_back({s1 + second, 0}); h = mc::mix(h, second); }
        c.describe("step %d of call %d fails (way %d)%s", s1, faulty_phase, way, second ? " and a later one" : "");
    }
#endif
    Bridge b(c, k.copies); Phases p; std::vector<std::shared_ptr<void>> keep; build(b, k, p, keep);
    for (int i = 0; i < (int)p.size(); i++) {
        c.describe("%s", p[i].name.c_str());
        if (i == faulty_phase) {
            b.j.faults = faults;
#if PROP == 28
            fault::plan(lost, later); struct Over { ~Over() { fault::plan(~0ull, false); } } over;
#endif
            perform(b, p[i], head); b.j.faults.clear(); }
        c.state(mc::mix(h, i)); if (i == faulty_phase && p[i].name.find("init") != std::string::npos) { Obj* o = b.j.last_self; if (o && o->get("nativePtr").j) continue; }
        perform(b, p[i], head);
    }
}
#endif
static Settings settings_of(mc::Ctx& c, bool few) {
    Settings s{(int)c.choose(KINDS, "kind"), ConfigLength(3, -1), false, false, false, 1.0, 0};
    s.down = c.flag("down");
    if (s.kind >= LOCAL) { s.len = few ? ConfigLength(5, -1) : c.pick({ConfigLength(3, -1), ConfigLength(5, -1), ConfigLength(2, 0.4), ConfigLength(-1, 0.5)}, "length"); s.a = few ? 0.95 : c.pick({1.0, 0.9, 1.1}, "scale"); }
    if (s.kind >= BMEAN) s.local = c.flag("local");
    if (s.kind == FIXED) s.a = few ? 100 : c.pick({0.0, 1.0, 100.0, 128.0, 200.5, 255.0}, "threshold");
    if (s.kind == OTSU) { int r = few ? 0 : c.choose(3, "range"); s.a = r == 2 ? 15 : 0; s.b = r == 1 ? 240 : 255; }
    if (s.kind == BMINMAX) s.b = few ? 20 : c.pick({0.0, 20.0, 150.0}, "spread");
    if (s.kind == BOTSU) { s.otsu2 = c.flag("otsu2"); s.b = few ? 0.1 : c.pick({0.0, 0.1, 5.0, 200.0}, "tuning"); }
    return s;
}
struct Shape { uint32_t w, h; };
#if PROP == 27
static Config choose_config(mc::Ctx& c) {
    Config k{}; k.block_length = 4000; k.group = c.choose(3, "group"); k.copies = !c.flag("pinning");
    if (k.group == 0) {
        k.s = settings_of(c, false); k.flt = c.flag("float"); k.lin = c.choose(JLAYOUTS, "input layout"); k.lout = c.choose(JLAYOUTS, "output layout");
        Shape sh = c.thorough ? c.pick({Shape{6, 6}, Shape{7, 5}, Shape{13, 9}, Shape{5, 12}, Shape{20, 17}, Shape{257, 7}, Shape{9, 260}, Shape{70, 66}}, "shape") : c.pick({Shape{6, 6}, Shape{13, 9}, Shape{70, 33}}, "shape"); k.w = sh.w; k.h = sh.h; k.seed = 4 + (c.thorough ? c.choose(4, "data") : 0);
    } else if (k.group == 1) {
        Filter& f = k.f; f.op = c.choose(FOPS, "operation"); f.integer = c.flag("integer"); f.out_bits = !f.integer ? 32 : f.op < HORIZONTAL || f.op > CONVOLVE ? 8 : c.pick({16, 32}, "output bits"); f.border = 5; f.kw = 1;
        if (f.op >= HORIZONTAL) { f.kw = (uint32_t)c.range(1, c.thorough ? 5 : 4, "kernel width"); f.ko = c.choose(f.kw, "kernel offset"); f.extra = c.pick({0, 2}, "kernel array"); }
        if (f.op >= HORIZONTAL && f.op <= CONVOLVE) f.border = c.pick({1, 3, 4, 5}, "border");
        if (f.op == MEAN) f.radius = c.range(1, 3, "radius");
        if (f.op == GAUSSIAN) { f.radius = c.range(-1, 3, "radius"); f.sigma = c.pick({-1.0, 0.7, 1.9}, "sigma"); }
        Shape sh = c.thorough ? c.pick({Shape{6, 6}, Shape{1, 9}, Shape{9, 1}, Shape{12, 7}, Shape{5, 13}, Shape{2, 2}, Shape{257, 5}, Shape{4, 258}, Shape{66, 40}}, "shape") : c.pick({Shape{6, 5}, Shape{1, 9}, Shape{11, 3}, Shape{70, 34}, Shape{5, 259}}, "shape"); k.w = sh.w; k.h = sh.h; k.seed = 5;
        k.lin = c.choose(JLAYOUTS, "input layout"); k.lout = c.choose(JLAYOUTS, "output layout"); k.lst = f.op <= GAUSSIAN ? c.choose(JLAYOUTS, "storage layout") : 0;
    } else { k.image = c.pick({0, 1, 3, 4, 5}, "image"); k.lin = c.choose(JLAYOUTS, "layout"); }
    return k;
}
#else
static Config choose_config(mc::Ctx& c) {
    Config k{}; k.block_length = 4000; k.group = c.choose(3, "group"); k.copies = !c.flag("pinning"); k.w = 7; k.h = 6; k.seed = 4; k.lin = 1; k.lout = 2; k.lst = 3;
    if (k.group == 0) { k.s = settings_of(c, true); k.flt = c.flag("float"); int bad = c.choose(4, "argument"); if (bad == 1) k.dw = 1; if (bad == 2) k.w = 2; if (bad == 3) { k.s.len = ConfigLength(40, -1); } }
    else if (k.group == 1) {
        Filter& f = k.f; f.op = c.choose(FOPS, "operation"); f.integer = c.flag("integer"); f.out_bits = !f.integer ? 32 : f.op < HORIZONTAL || f.op > CONVOLVE ? 8 : c.pick({16, 32}, "output bits"); f.border = 5; f.kw = 1;
        if (f.op >= HORIZONTAL) {
            struct KO { uint32_t w, o; int extra, broken; }; KO o = c.pick({KO{3, 1, 0, 0}, KO{3, 0, 1, 0}, KO{3, 3, 0, 0}, KO{3, 7, 0, 0}, KO{3, 1, -1, 0}, KO{3, 1, -3, 0}, KO{3, 1, 0, 1}, KO{0, 0, 0, 0}, KO{11, 5, 0, 0}}, "kernel"); f.kw = o.w; f.ko = o.o; f.extra = o.extra; f.broken = o.broken;
        }
        if (f.op >= HORIZONTAL && f.op <= CONVOLVE) { f.border = c.pick({1, 3, 4, 5, 0, 2, 6, -1}, "border"); if (f.broken == 0) f.broken = c.pick({0, 2, 3}, "bits"); }
        if (f.op == MEAN) f.radius = c.pick({1, 0, -1, 2}, "radius");
        if (f.op == GAUSSIAN) { f.radius = c.pick({1, 0, -1, 2}, "radius"); f.sigma = c.pick({-1.0, 0.7}, "sigma"); }
        f.dw = c.flag("wrong output shape");
    } else { k.image = c.choose(4, "image"); k.lin = c.choose(2, "layout"); k.broken_rule = c.flag("unknown rule"); k.block_length = c.pick({4000, 2000, 4002}, "Java block length"); }
    return k;
}
#endif
