// C39: every allocation of every call fails once (alone, or with all later ones) after short histories; sizes that cannot
// be represented.  A call that runs out of memory must say so, leave every object valid, change nothing it does not own and
// release what it took; afterwards all objects give what new ones give.
#define VERIF_FAULTS
#include "world.h"
#include "ops.h"
#include "fault_new.h"
using namespace boofcv;
const char* mc_property = "C39";
enum Outcome { DONE, REFUSED, MEMORY };
static const char* const outcome_name[] = {"succeeds", "is refused", "reports lack of memory"};
template<class F> static Outcome attempt(F f, uint64_t k = ~0ull, bool later = false) {
    fault::Arm arm(k, later);
    try { f(); return DONE; } catch (std::bad_alloc&) { return MEMORY; } catch (mc::Violation&) { throw; } catch (std::exception&) { return REFUSED; } catch (const char*) { return REFUSED; }
}
static volatile double sink;
// ---- A: objects ----
enum Kind { GRAY, INTER, PLANAR, ARRAY, K1, K2, SET, NONE };
template<class E> struct Pool {
    typedef typename TypeInfo<E>::signed_type S;
    const Gray<E> small, big; const Interleaved<E> ismall, ibig; const Planar<Gray<E>> psmall, pbig; GrowArray<S> shorter, longer; Kernel1D<S> ka, kb; Kernel2D<S> kc, kd;
    Gray<E> g; Interleaved<E> in; Planar<Gray<E>> p; GrowArray<S> a; Kernel1D<S> k; Kernel2D<S> kk; PackedSet<int> set;
    Pool() : small(2, 3), big(7, 5), ismall(3, 2, 2), ibig(5, 4, 3), psmall(3, 2, 2), pbig(5, 4, 3), shorter(2), longer(33), ka(1), kb(11), kc(1), kd(7), g(4, 3), in(3, 3, 2), p(3, 3, 2), a(3), k(3, 1), kk(3, 1), set(2) {
        paint(small); paint(big); paint(g); paint(ismall); paint(ibig); paint(in); paint(psmall); paint(pbig); paint(p);
        for (auto* x : {&shorter, &longer, &a, &ka.data, &kb.data, &kc.data, &kd.data, &k.data, &kk.data}) for (uint32_t i = 0; i < x->size; i++) (*x)[i] = (S)(i % 50 + 1);
        for (int i = 0; i < 3; i++) set.push_tail(i);
    }
    static void paint(const Gray<E>& g) { for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) g.at(x, y) = (E)((x * 7 + y * 3 + g.width) % 100); }
    static void paint(const Interleaved<E>& g) { for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) for (uint32_t b = 0; b < g.num_bands; b++) g.at(x, y, b) = (E)((x * 7 + y * 3 + b * 31) % 100); }
    static void paint(const Planar<Gray<E>>& g) { for (uint32_t b = 0; b < g.num_bands; b++) paint(g.getBand(b)); }
    template<class T> static void array(R& r, const GrowArray<T>& a) { r.push_back(a.size); for (uint32_t i = 0; i < a.size; i++) r.push_back((double)a.at(i)); for (uint32_t i = 0; i < a.array_length; i++) sink = (double)a.data[i]; }
    // everything an object holds; touches all of it, so that memory it no longer has shows
    R dump(int kind) {
        R r;
        switch (kind) {
            case GRAY: return World<E>::px(g);
            case INTER: return World<E>::px(in);
            case PLANAR: return World<E>::px(p);
            case ARRAY: array(r, a); return r;
            case K1: r = R{(double)k.width, (double)k.offset}; array(r, k.data); return r;
            case K2: r = R{(double)kk.width, (double)kk.offset}; array(r, kk.data); return r;
            default: { std::vector<int> q; for (uint32_t i = 0; i < set.number_of_sets(); i++) { set.load_set(i, q); r.push_back((double)q.size()); } for (int v : q) r.push_back(v); r.push_back(set.size_of_tail()); return r; }
        }
    }
    std::string invalid() {
        if ((uint64_t)g.width * g.height > g.data_length || g.subimage || (g.height > 1 && g.stride < g.width)) return "the gray image is larger than its memory";
        if ((uint64_t)in.width * in.height * in.num_bands > in.data_length || in.subimage || (in.height > 1 && in.stride < in.width * in.num_bands)) return "the interleaved image is larger than its memory";
        for (uint32_t b = 0; b < p.num_bands; b++) if (p.getBand(b).width != p.width || p.getBand(b).height != p.height) return "a band of the planar image has another shape than the image";
        if (a.size > a.array_length) return "the array is longer than its memory";
        if (k.data.size != k.width) return "the 1-d kernel's weights are not as many as its width says";
        if (kk.data.size != kk.width * kk.width) return "the 2-d kernel's weights are not as many as its width says";
        return "";
    }
    // all objects set to known contents again
    R restore() {
        R r; auto add = [&](R q) { r.insert(r.end(), q.begin(), q.end()); };
        g.copy(small); add(dump(GRAY)); g.copy(big); add(dump(GRAY)); g.reshape(8, 9); g.reshape(2, 2); paint(g); add(dump(GRAY));
        in.setTo(ismall); add(dump(INTER)); in.setTo(ibig); add(dump(INTER)); in.reshape(9, 8, 4); paint(in); add(dump(INTER));
        p.setTo(psmall); add(dump(PLANAR)); p.setTo(pbig); add(dump(PLANAR)); p.setNumberOfBands(5); p.reshape(9, 8); paint(p); add(dump(PLANAR));
        a = longer; add(dump(ARRAY)); a.resize(40); a.fill((S)3); add(dump(ARRAY)); a = shorter; add(dump(ARRAY));
        k = kb; add(dump(K1)); k.reshape(13, 6); k.data.fill((S)2); add(dump(K1)); k = ka; add(dump(K1)); kk = kd; add(dump(K2)); kk.reshape(8, 6); kk.data.fill((S)2); add(dump(K2));
        set.clear(); for (int i = 0; i < 9; i++) { if (i % 4 == 0) set.start_new_set(); set.push_tail(i); } add(dump(SET));
        return r;
    }
};
template<class E> struct Step { const char* name; int kind; std::function<void(Pool<E>&)> f; };
template<class E> static const std::vector<Step<E>>& steps() {
    typedef Pool<E> P; typedef typename P::S S; static std::vector<Step<E>> r; if (!r.empty()) return r;
    auto add = [&](const char* n, int kind, std::function<void(P&)> f) { r.push_back({n, kind, f}); };
    add("gray reshape 2x2", GRAY, [](P& p) { p.g.reshape(2, 2); }); add("gray reshape 9x8", GRAY, [](P& p) { p.g.reshape(9, 8); }); add("gray reshape 3x7", GRAY, [](P& p) { p.g.reshape(3, 7); });
    add("gray copy", GRAY, [](P& p) { p.g.copy(p.big); }); add("gray assignment", GRAY, [](P& p) { p.g = p.big; }); add("gray assignment, smaller", GRAY, [](P& p) { p.g = p.small; });
    add("gray crop", GRAY, [](P& p) { p.g = p.g.makeSubimage(1, 1, 2, 2); });
    add("new gray image", NONE, [](P&) { Gray<E> t(5, 6); }); add("new copy of a gray image", NONE, [](P& p) { Gray<E> t(p.big); }); add("new gray image with values", NONE, [](P&) { Gray<E> t{{1, 2}, {3, 4}}; });
    add("interleaved reshape 2x2", INTER, [](P& p) { p.in.reshape(2, 2); }); add("interleaved reshape 9x8", INTER, [](P& p) { p.in.reshape(9, 8); }); add("interleaved reshape 6x5, 4 bands", INTER, [](P& p) { p.in.reshape(6, 5, 4); });
    add("interleaved 1 band", INTER, [](P& p) { p.in.setNumberOfBands(1); }); add("interleaved 7 bands", INTER, [](P& p) { p.in.setNumberOfBands(7); }); add("interleaved setTo", INTER, [](P& p) { p.in.setTo(p.ibig); });
    add("interleaved assignment", INTER, [](P& p) { p.in = p.ibig; }); add("interleaved assignment, smaller", INTER, [](P& p) { p.in = p.ismall; }); add("interleaved crop", INTER, [](P& p) { p.in = p.in.makeSubimage(0, 1, 2, 2); });
    add("new interleaved image", NONE, [](P&) { Interleaved<E> t(5, 6, 2); }); add("new copy of an interleaved image", NONE, [](P& p) { Interleaved<E> t(p.ibig); });
    add("planar reshape 2x2", PLANAR, [](P& p) { p.p.reshape(2, 2); }); add("planar reshape 9x8", PLANAR, [](P& p) { p.p.reshape(9, 8); }); add("planar 1 band", PLANAR, [](P& p) { p.p.setNumberOfBands(1); });
    add("planar 6 bands", PLANAR, [](P& p) { p.p.setNumberOfBands(6); }); add("planar setTo", PLANAR, [](P& p) { p.p.setTo(p.pbig); }); add("planar assignment", PLANAR, [](P& p) { p.p = p.pbig; });
    add("planar assignment, smaller", PLANAR, [](P& p) { p.p = p.psmall; }); add("new planar image", NONE, [](P&) { Planar<Gray<E>> t(5, 6, 3); }); add("new copy of a planar image", NONE, [](P& p) { Planar<Gray<E>> t(p.pbig); });
    add("planar band reshape back and forth", PLANAR, [](P& p) { uint32_t w = p.p.width, h = p.p.height; p.p.reshape(w + 1, h + 2); p.p.reshape(w, h); });
    add("array resize 2", ARRAY, [](P& p) { p.a.resize(2); }); add("array resize 30", ARRAY, [](P& p) { p.a.resize(30); }); add("array grow 2", ARRAY, [](P& p) { p.a.grow_array(2); }); add("array grow 40", ARRAY, [](P& p) { p.a.grow_array(40); });
    add("array assignment", ARRAY, [](P& p) { p.a = p.longer; }); add("array assignment, shorter", ARRAY, [](P& p) { p.a = p.shorter; }); add("array set to values", ARRAY, [](P& p) { p.a.setTo({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}); });
    add("array set from memory", ARRAY, [](P& p) { p.a.set(p.longer.data, 25); }); add("new array", NONE, [](P&) { GrowArray<S> t(7); }); add("new array with values", NONE, [](P&) { GrowArray<S> t{1, 2, 3}; }); add("new copy of an array", NONE, [](P& p) { GrowArray<S> t(p.longer); });
    add("1-d kernel reshape 5", K1, [](P& p) { p.k.reshape(5, 2); }); add("1-d kernel reshape 15", K1, [](P& p) { p.k.reshape(15, 7); }); add("1-d kernel reshape 1", K1, [](P& p) { p.k.reshape(1, 0); });
    add("1-d kernel assignment", K1, [](P& p) { p.k = p.kb; }); add("1-d kernel assignment, smaller", K1, [](P& p) { p.k = p.ka; }); add("new 1-d kernel", NONE, [](P&) { Kernel1D<S> t(17, 3); }); add("new 1-d kernel with values", NONE, [](P&) { Kernel1D<S> t(1, {1, 2, 3}); }); add("new copy of a 1-d kernel", NONE, [](P& p) { Kernel1D<S> t(p.kb); });
    add("2-d kernel reshape 4", K2, [](P& p) { p.kk.reshape(4, 2); }); add("2-d kernel reshape 9", K2, [](P& p) { p.kk.reshape(9, 4); }); add("2-d kernel reshape 1", K2, [](P& p) { p.kk.reshape(1, 0); });
    add("2-d kernel assignment", K2, [](P& p) { p.kk = p.kd; }); add("2-d kernel assignment, smaller", K2, [](P& p) { p.kk = p.kc; }); add("new 2-d kernel", NONE, [](P&) { Kernel2D<S> t(5, 2); }); add("new 2-d kernel with values", NONE, [](P&) { Kernel2D<S> t(1, {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}); });
    add("new copy of a 2-d kernel", NONE, [](P& p) { Kernel2D<S> t(p.kd); });
    add("set: start", SET, [](P& p) { p.set.start_new_set(); }); add("set: push", SET, [](P& p) { p.set.push_tail(5); }); add("set: push 5", SET, [](P& p) { for (int i = 0; i < 5; i++) p.set.push_tail(10 + i); }); add("set: remove", SET, [](P& p) { p.set.remove_tail(); });
    add("set: clear", SET, [](P& p) { p.set.clear(); }); add("set: clear and push", SET, [](P& p) { p.set.clear(); for (int i = 0; i < 7; i++) p.set.push_tail(i); }); add("new set", NONE, [](P&) { PackedSet<int> t(3); t.push_tail(1); }); add("load a set", NONE, [](P& p) { if (!p.set.number_of_sets()) return; std::vector<int> v; p.set.load_set(0, v); });
    add("Gaussian kernels", NONE, [](P&) { FactoryKernel::gaussian1D<S>(1.5, -1); FactoryKernel::gaussian2D<F32>(-1, 5); });
    add("new filters", NONE, [](P&) { ThresholdBlockMean<E> a(ConfigLength::fixed(3), true, 1, true); ThresholdBlockMinMax<E> b(1, ConfigLength::fixed(3), true, 1.0f, true); ThresholdBlockOtsu<E> c(true, ConfigLength::fixed(3), 0, 1, true, true); LocalMeanBinaryFilter<E> d(ConfigLength::fixed(3), 1.0f, true); GlobalOtsuBinaryFilter<E> e((E)0, (E)255, true); ComputeOtsu o(true, 0.1, true, 1.0); });
    add("new contour finder", NONE, [](P&) { LinearContourLabelChang2004 f(EIGHT); }); add("new contour tracer", NONE, [](P&) { ContourTracer f(FOUR); ContourTracer g(EIGHT); });
    add("new borders", NONE, [](P& p) { for (int b = 0; b < RB_COUNT; b++) { auto x = make_border<E>(b, (E)1); x->setImage(p.big); } });
    return r;
}
template<class E> static void objects(mc::Ctx& c) {
    auto& ss = steps<E>(); static R expected; if (expected.empty()) { Pool<E> p; expected = p.restore(); }
    uint32_t n = (uint32_t)ss.size(); Pool<E> w; uint64_t h = 5 + sizeof(E); int before = c.choose(c.thorough ? 3 : 2, "earlier steps");
    for (int d = 0; d < before; d++) { auto& s = ss[c.choose(n, "step")]; if (d == 0) c.shard(); c.describe("%s", s.name); Outcome o = attempt([&] { s.f(w); }); if (o == MEMORY) c.fail("memory", "%s: takes more than 1 GB", s.name); c.step(); }
    const Step<E>& s = ss[c.choose(n, "failing step")]; if (before == 0) c.shard();
    uint64_t total; Outcome plain; { Pool<E> t; for (int d = 0; d < before; d++) attempt([&] { ss[c.s->path[c.pos - 1 - before + d].v].f(t); }); plain = attempt([&] { s.f(t); }); total = fault::count; c.s->checks.fetch_add(1); }
    if (total == 0) return;
    uint64_t k = c.choose((uint32_t)total, "allocation that fails"); bool later = c.flag("and all later ones");
    std::vector<R> was; for (int i = 0; i < NONE; i++) was.push_back(w.dump(i));
    c.describe("%s with allocation %llu of %llu failing%s", s.name, (unsigned long long)k + 1, (unsigned long long)total, later ? " and all later ones" : "");
    Outcome o = attempt([&] { s.f(w); }, k, later); c.step(); c.s->checks.fetch_add(2 + NONE); h = mc::mix(mc::mix(h, &s - &ss[0]), k * 2 + later); c.state(h);
    if (o != MEMORY && o != plain) c.fail("outcome", "'%s' %s when allocation %llu fails (without the failure it %s)", s.name, outcome_name[o], (unsigned long long)k + 1, outcome_name[plain]);
    std::string bad = w.invalid(); if (!bad.empty()) c.fail("invalid", "after '%s' ran out of memory (allocation %llu): %s", s.name, (unsigned long long)k + 1, bad.c_str());
    for (int i = 0; i < NONE; i++) { R now = w.dump(i); if (i != s.kind && now != was[i]) c.fail("others", "'%s' ran out of memory and changed an object it has nothing to do with", s.name); }
    R r = w.restore(); if (r != expected) c.fail("unusable", "after '%s' ran out of memory (allocation %llu) the objects do not give what new ones give", s.name, (unsigned long long)k + 1);
}
// ---- B: every operation of the library on outputs of the right shape ----
static void operations(mc::Ctx& c) {
    static const std::vector<Op> ops = more_ops(); const Op& op = ops[c.choose((uint32_t)ops.size(), "operation")]; c.shard();
    static const uint32_t sh[][2] = {{6, 5}, {13, 9}, {1, 4}, {40, 3}}; auto& s = sh[c.choose(c.thorough ? 4 : 2, "shape")]; int l = c.choose(2, "views") * 2; std::vector<int> lay(6, l);
    auto refused = [&](Args& a, uint64_t k, bool later) { return attempt([&] { op.run(a); }, k, later); };
    Args clean(s[0], s[1], lay, 7, 0); Outcome plain; plain = refused(clean, ~0ull, false); uint64_t total = fault::count; { fault::Pause p; clean.finish(); } c.s->checks.fetch_add(1); if (!total) return;
    uint64_t k = c.choose((uint32_t)total, "allocation that fails"); bool later = c.flag("and all later ones");
    c.describe("%s on %ux%u images, allocation %llu of %llu fails%s", op.name.c_str(), s[0], s[1], (unsigned long long)k + 1, (unsigned long long)total, later ? ", and all later ones" : "");
    { Args a(s[0], s[1], lay, 7, 0); Outcome o = refused(a, k, later); c.step(); c.s->checks.fetch_add(2); a.finish();
      if (o != MEMORY && (o != plain || a.result != clean.result)) c.fail("outcome", "'%s' on %ux%u images %s when allocation %llu fails (without the failure it %s)", op.name.c_str(), s[0], s[1], outcome_name[o], (unsigned long long)k + 1, outcome_name[plain]);
      std::string p = a.problem(); if (!p.empty()) c.fail("damage", "'%s' on %ux%u images, allocation %llu failed: %s", op.name.c_str(), s[0], s[1], (unsigned long long)k + 1, p.c_str()); }
    Args again(s[0], s[1], lay, 7, 0); Outcome o = refused(again, ~0ull, false); again.finish(); c.s->checks.fetch_add(again.result.size());
    if (o != plain || again.result != clean.result) c.fail("later-result", "'%s' on %ux%u images gives another result after it once ran out of memory (allocation %llu)", op.name.c_str(), s[0], s[1], (unsigned long long)k + 1);
    c.state(mc::mix(mc::mix(3, &op - &ops[0]), k * 64 + l * 2 + later + s[0] * 4096));
}
// ---- C: pool of images, filters and finders whose outputs and work images must be enlarged ----
template<class E> static void world(mc::Ctx& c) {
    auto& cs = calls<E>(); static std::vector<R> expected; static std::vector<int> legal; static R cont;
    if (legal.empty()) { for (size_t i = 0; i < cs.size(); i++) if (cs[i].legal) { World<E> w; legal.push_back(i); expected.push_back(cs[i].f(w)); } World<E> w; cont = w.containers(); }
    uint32_t n = (uint32_t)legal.size(); int before = c.choose(c.thorough ? 3 : 2, "earlier calls"); World<E> w, t; uint64_t h = 11 + sizeof(E);
    for (int d = 0; d < before; d++) { auto& k = cs[legal[c.choose(n, "call")]]; if (d == 0) c.shard(); c.describe("%s", k.name); k.f(w); k.f(t); c.step(); }
    uint32_t i = c.choose(n, "failing call"); const Call<E>& k = cs[legal[i]]; if (before == 0) c.shard();
    attempt([&] { k.f(t); }); uint64_t total = fault::count; if (!total) return;
    uint64_t which = c.choose((uint32_t)total, "allocation that fails"); bool later = c.flag("and all later ones"); R r;
    c.describe("'%s' with allocation %llu of %llu failing%s", k.name, (unsigned long long)which + 1, (unsigned long long)total, later ? " and all later ones" : "");
    Outcome o = attempt([&] { r = k.f(w); }, which, later); c.step(); h = mc::mix(mc::mix(h, i), which * 2 + later); c.state(h); c.s->checks.fetch_add(2 + n);
    if (o == REFUSED || (o == DONE && r != expected[i])) c.fail("outcome", "'%s' %s when allocation %llu fails", k.name, o == REFUSED ? "is refused" : "gives another result", (unsigned long long)which + 1);
    std::string p = w.problem(); if (!p.empty()) c.fail("damage", "after '%s' ran out of memory (allocation %llu): %s", k.name, (unsigned long long)which + 1, p.c_str());
    if (w.containers() != cont) c.fail("others", "'%s' ran out of memory (allocation %llu) and changed an object it has nothing to do with", k.name, (unsigned long long)which + 1);
    for (uint32_t j = 0; j < n; j++) { uint32_t q = (i + j) % n; R got = cs[legal[q]].f(w); c.step(); if (got != expected[q]) c.fail("unusable", "'%s' gives another result after '%s' ran out of memory (allocation %llu)", cs[legal[q]].name, k.name, (unsigned long long)which + 1); }
}
// ---- D: sizes that cannot be represented ----
template<class E> static void sizes(mc::Ctx& c) {
    static const uint32_t dims[] = {0, 1, 3, 255, 256, 4096, 16384, 46341, 65535, 65536, 65537, 131072, 1u << 20, 1u << 24, 1431655766u, 1u << 30, 2147483647u, 1u << 31, (1u << 31) + 1, 4294967294u, 4294967295u};
    static const uint32_t bands[] = {0, 1, 2, 3, 4, 16, 257, 65536, 1u << 30, 4294967295u}; const uint32_t ND = sizeof dims / sizeof *dims, NB = sizeof bands / sizeof *bands;
    int kind = c.choose(12, "how"); uint32_t w = dims[c.choose(ND, "width")]; c.shard(); uint32_t h = dims[c.choose(ND, "height")]; uint32_t b = kind >= 4 && kind < 8 ? bands[c.choose(NB, "bands")] : kind >= 8 && kind < 11 ? c.choose(4, "bands") : 1; struct Limit { Limit() { fault::limit = 8 << 20; } ~Limit() { fault::limit = (size_t)1 << 30; } } limit;
    static const char* const name[] = {"new gray image", "gray reshape", "gray copy", "gray assignment", "new interleaved image", "interleaved reshape with bands", "interleaved reshape", "interleaved bands", "new planar image", "planar reshape", "planar bands", "2-d kernel"};
    c.describe("%s %ux%u, %u bands", name[kind], w, h, b); uint64_t px = (uint64_t)w * h; bool small = px <= 4096 * 256 && px * b <= 4096 * 256; Outcome o = DONE; c.step(); c.s->checks.fetch_add(3);
    auto check = [&](const ImageBase& im, uint64_t length, uint32_t ww, uint32_t hh) {
        if ((unsigned __int128)im.width * im.height > length) c.fail("too-large", "%s %ux%u (%u bands): the image is %ux%u but holds %llu values", name[kind], w, h, b, im.width, im.height, (unsigned long long)length);
        if (o == DONE && (im.width != ww || im.height != hh)) c.fail("shape", "%s %ux%u: the image is %ux%u", name[kind], w, h, im.width, im.height); };
    auto gray = [&](const Gray<E>& g) { check(g, g.data_length, w, h); if (g.width && g.height) { g.at(0, 0) = (E)1; g.at(g.width - 1, g.height - 1) = (E)2; g.at(g.width - 1, 0) = (E)3; sink = (double)g.at(0, g.height - 1); } };
    auto inter = [&](const Interleaved<E>& g, uint32_t ww, uint32_t hh, uint32_t bb) { if (!g.num_bands) return; check(g, g.data_length / g.num_bands, ww, hh); if (o == DONE && g.num_bands != bb) c.fail("shape", "%s: %u bands instead of %u", name[kind], g.num_bands, bb); if (g.width && g.height) { g.at(0, 0, 0) = (E)1; g.at(g.width - 1, g.height - 1, g.num_bands - 1) = (E)2; g.at(g.width - 1, 0, 0) = (E)3; sink = (double)g.at(0, g.height - 1, g.num_bands - 1); } };
    auto planar = [&](const Planar<Gray<E>>& g, uint32_t ww, uint32_t hh, uint32_t bb) { if (o == DONE && g.num_bands != bb) c.fail("shape", "%s: %u bands instead of %u", name[kind], g.num_bands, bb); for (uint32_t i = 0; i < g.num_bands; i++) { const Gray<E>& q = g.getBand(i); check(q, q.data_length, ww, hh); if (q.width && q.height) { q.at(0, 0) = (E)1; q.at(q.width - 1, q.height - 1) = (E)2; } } };
    E cell[4] = {}; Gray<E> huge(cell, 4, w, h, 0, 0);      // a view that claims to be that large (every row is the same memory)
    if (kind == 0) o = attempt([&] { Gray<E> g(w, h); fault::Pause p; gray(g); });
    else if (kind == 1) { Gray<E> g(3, 2); o = attempt([&] { g.reshape(w, h); }); gray(g); g.reshape(5, 5); g.at(4, 4) = (E)1; }
    else if (kind == 2 || kind == 3) { if ((px && w > 4) || h > 70000) return; Gray<E> g(3, 2); o = attempt([&] { if (kind == 2) g.copy(huge); else { Gray<E> t(cell, 4, w, h, 0, 0); t.subimage = false; struct Release { Gray<E>& t; ~Release() { t.subimage = true; } } rel{t}; g = t; } }); gray(g); }
    else if (kind == 4) o = attempt([&] { Interleaved<E> g(w, h, b); fault::Pause p; inter(g, w, h, b); });
    else if (kind == 5) { Interleaved<E> g(3, 2, 2); o = attempt([&] { g.reshape(w, h, b); }); inter(g, w, h, b); g.reshape(5, 5, 2); g.at(4, 4, 1) = (E)1; }
    else if (kind == 6) { if (b > 16) return; Interleaved<E> g(3, 2, b); o = attempt([&] { g.reshape(w, h); }); inter(g, w, h, b); g.reshape(5, 5, 2); g.at(4, 4, 1) = (E)1; }
    else if (kind == 7) { if (px > 4096) return; Interleaved<E> g(w, h, 2); o = attempt([&] { g.setNumberOfBands(b); }); inter(g, w, h, b); g.reshape(5, 5, 2); g.at(4, 4, 1) = (E)1; }
    else if (kind == 8) o = attempt([&] { Planar<Gray<E>> g(w, h, b); fault::Pause p; planar(g, w, h, b); });
    else if (kind == 9) { Planar<Gray<E>> g(3, 2, b); o = attempt([&] { g.reshape(w, h); }); planar(g, w, h, b); g.reshape(5, 5); }
    else if (kind == 10) { if (px > 4096) return; Planar<Gray<E>> g(w, h, 2); uint32_t bb = bands[b + 5 > 9 ? 9 : b + 5]; o = attempt([&] { g.setNumberOfBands(bb); }); planar(g, w, h, bb); g.reshape(5, 5); return; }
    else { if (h != 1) return; typedef typename TypeInfo<E>::signed_type S; o = attempt([&] { Kernel2D<S> k(w, w / 2); fault::Pause p; if (k.width != w || k.data.size != (uint64_t)w * w) c.fail("too-large", "2-d kernel of width %u holds %u values", w, k.data.size); });
        Kernel2D<S> k(3, 1); Outcome q = attempt([&] { k.reshape(w, w / 2); }); if (k.data.size != (uint64_t)k.width * k.width) c.fail("too-large", "2-d kernel reshaped to width %u has width %u and holds %u values", w, k.width, k.data.size); if (w > 0 && w < 500 && (o != DONE || q != DONE)) c.fail("outcome", "2-d kernel of width %u %s", w, outcome_name[o ? o : q]); return; }
    if (small && o != DONE) c.fail("outcome", "%s %ux%u, %u bands %s", name[kind], w, h, b, outcome_name[o]);
}
void mc_body(mc::Ctx& c) {
    int part = c.choose(7, "part");
    switch (part) { case 0: objects<U8>(c); break; case 1: objects<F32>(c); break; case 2: operations(c); break; case 3: world<U8>(c); break; case 4: world<F32>(c); break; case 5: sizes<U8>(c); break; default: sizes<F32>(c); }
}
