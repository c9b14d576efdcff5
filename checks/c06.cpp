// C06: GrowArray against a plain vector, over every history of operations up to a depth.
#include "util.h"
using namespace boofcv;
const char* mc_property = "C06";

template<class T> static T big() { return std::is_floating_point<T>::value ? (T)-2.5 : (T)(sizeof(T) == 1 ? 0xA7 : sizeof(T) == 2 ? 0x1234 : 0x01020304); }
template<class T> struct Model { std::vector<T> v; T def = 0; };

// two arrays that own their memory, a third created on demand, and one that wraps the caller's memory
template<class T> struct World {
    std::unique_ptr<GrowArray<T>> a[2]; Model<T> m[2];
    T mem[6]; std::unique_ptr<GrowArray<T>> w; std::vector<T> mw;
    World() { for (int i = 0; i < 6; i++) mem[i] = (T)(i + 40); w.reset(new GrowArray<T>(mem, 6, 4)); mw.assign(mem, mem + 4); }
};

template<class T> static void verify(mc::Ctx& c, World<T>& W) {
    for (int i = 0; i < 2; i++) {
        GrowArray<T>& g = *W.a[i]; const std::vector<T>& v = W.m[i].v;
        if (g.size != v.size()) c.fail("size", "array %d has size %u, expected %zu", i, g.size, v.size());
        for (uint32_t k = 0; k < v.size(); k++) {
            if (!(g[k] == v[k])) c.fail("element", "element %u of array %d (size %u) is %g, expected %g", k, i, g.size, dv(g[k]), dv(v[k]));
            if (&g.at(k) != &g.data[k]) c.fail("at", "at(%u) and data[%u] are different elements", k, k);
        }
        if (!(g.default_value == W.m[i].def)) c.fail("default", "default value of array %d is %g, expected %g", i, dv(g.default_value), dv(W.m[i].def));
        uint32_t n = (uint32_t)v.size();
        for (uint32_t k : {n, n + 1, 0x80000000u, 0xffffffffu}) if (!throws([&] { g.at(k); })) c.fail("no-refusal", "at(%u) of array %d with %u elements was not refused", k, i, n);
        c.s->checks.fetch_add(v.size() + 6, std::memory_order_relaxed);
    }
    if (W.w->size != W.mw.size() || W.w->data != W.mem) c.fail("wrapper", "a wrapper's size or memory changed");
    for (int k = 0; k < 6; k++) { T e = k < (int)W.mw.size() ? W.mw[k] : (T)(k + 40); if (!(W.mem[k] == e)) c.fail("wrapper", "the wrapped memory at %d is %g, expected %g", k, dv(W.mem[k]), dv(e)); }
}

template<class T> static bool op(mc::Ctx& c, World<T>& W) {
    static const uint32_t sizes[] = {0, 1, 2, 3, 5, 11};
    int i = c.choose(2, "array"); GrowArray<T>& A = *W.a[i]; Model<T>& M = W.m[i]; GrowArray<T>& B = *W.a[1 - i]; Model<T>& N = W.m[1 - i];
    switch (c.choose(13, "op")) {
        case 0: { uint32_t n = sizes[c.choose(6, "n")]; c.describe("a%d.resize(%u)", i, n); A.resize(n); M.v.resize(n, M.def); break; }
        case 1: { uint32_t n = sizes[c.choose(4, "n")]; c.describe("a%d.grow_array(%u)", i, n); A.grow_array(n); M.v.clear(); break; }
        case 2: { T v = c.flag("v") ? big<T>() : (T)1; c.describe("a%d.fill(%g)", i, dv(v)); A.fill(v); std::fill(M.v.begin(), M.v.end(), v); break; }
        case 3: { T v = c.flag("v") ? big<T>() : (T)3; c.describe("a%d.default_value=%g", i, dv(v)); A.default_value = v; M.def = v; break; }
        case 4: { if (M.v.empty()) return false; uint32_t k = c.flag("last") ? (uint32_t)M.v.size() - 1 : 0; T v = (T)(9 + M.v.size()); c.describe("a%d[%u]=%g", i, k, dv(v)); A.at(k) = v; M.v[k] = v; break; }
        case 5: c.describe("a%d=a%d", i, 1 - i); A = B; M = N; break;
        case 6: c.describe("a%d=wrapper", i); A = *W.w; M.v = W.mw; M.def = 0; break;
        case 7: c.describe("a%d=a%d", i, i); A = *&A; break;
        case 8: { c.describe("a%d is a copy of a%d", i, 1 - i); std::unique_ptr<GrowArray<T>> t(new GrowArray<T>(B)); W.a[i] = std::move(t); M = N; break; }
        case 9: { int k = c.choose(4, "how"); c.describe("a%d is new (%d)", i, k);
            M.def = 0;
            if (k == 0) { W.a[i].reset(new GrowArray<T>(3u)); M.v.assign(3, (T)0); }
            else if (k == 1) { W.a[i].reset(new GrowArray<T>(0u)); M.v.clear(); }
            else if (k == 2) { W.a[i].reset(new GrowArray<T>{(T)5, big<T>(), (T)7}); M.v = {(T)5, big<T>(), (T)7}; }
            else { W.a[i].reset(new GrowArray<T>(*W.w)); M.v = W.mw; }
            break; }
        case 10: { if (c.flag("long")) { c.describe("a%d.setTo(4 elements)", i); A.setTo({(T)1, big<T>(), (T)3, (T)4}); M.v = {(T)1, big<T>(), (T)3, (T)4}; } else { c.describe("a%d.setTo(2 elements)", i); A.setTo({big<T>(), (T)2}); M.v = {big<T>(), (T)2}; } break; }
        case 11: { static const T src[7] = {(T)11, (T)12, big<T>(), (T)14, (T)15, (T)16, (T)17}; uint32_t n = c.pick({1u, 7u}, "n"); c.describe("a%d.set(%u elements)", i, n); A.set(src, n); M.v.assign(src, src + n); break; }
        default: {  // the wrapper: element changes go through, everything that would resize it is refused
            int k = c.choose(8, "wrapper-op"); GrowArray<T>& w = *W.w; bool t = true; static const T src[2] = {(T)1, (T)2};
            c.describe("wrapper operation %d", k);
            if (k == 0) { w.fill(big<T>()); std::fill(W.mw.begin(), W.mw.end(), big<T>()); }
            else if (k == 1) { w.at(1) = (T)77; W.mw[1] = (T)77; }
            else if (k == 2) t = throws([&] { w.resize(9); });
            else if (k == 3) t = throws([&] { w.resize(2); });
            else if (k == 4) t = throws([&] { w.grow_array(c.pick({2u, 20u})); });
            else if (k == 5) t = throws([&] { w = A; });
            else if (k == 6) t = throws([&] { w.set(src, 2); });
            else { t = throws([&] { w.setTo({(T)1, (T)2}); }) && throws([&] { w.at(4); }); }
            if (!t) c.fail("no-refusal", "resizing wrapped memory (operation %d) was not refused", k);
            if (k == 5) for (int q = 0; q < 4; q++) if (W.mem[q] != W.mw[q]) c.fail("wrapper", "a refused assignment changed the wrapped memory");
            if (!(w.default_value == (T)0)) c.fail("default", "a refused change altered the wrapper's default value");
        }
    }
    return true;
}

template<class T> static void run(mc::Ctx& c, int depth) {
    World<T> W;
    W.a[0].reset(new GrowArray<T>(2u)); W.m[0].v.assign(2, 0); W.a[1].reset(new GrowArray<T>()); W.m[1].v.assign(10, 0);
    uint64_t h = sizeof(T) * 2 + std::is_floating_point<T>::value;
    verify(c, W);
    for (int d = 0; d < depth; d++) {
        if (!op(c, W)) return;
        if (d == 1) c.shard();
        c.step();
        // every prefix of a history is itself explored, so only the end needs checking; checking all the way costs little
        if (d == depth - 1 || c.verbose) verify(c, W);
        h = mc::mix(h, d);
        for (auto& m : W.m) { h = mc::mix(h, m.v.size() + 77); for (auto& e : m.v) h = mc::mix(h, mc::hash_bytes(&e, sizeof e)); h = mc::mix(h, mc::hash_bytes(&m.def, sizeof m.def)); }
    }
    c.state(h);
}
void mc_body(mc::Ctx& c) {
    int t = c.choose(6, "type"); int depth = 1 + c.choose(c.thorough && t == 2 ? 4 : 3, "depth");
    switch (t) { case 0: run<U8>(c, depth); break; case 1: run<S16>(c, depth); break; case 2: run<S32>(c, depth); break; case 3: run<F32>(c, depth); break; case 4: run<F64>(c, depth); break; default: run<S64>(c, depth); }
}
