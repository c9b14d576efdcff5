// C05: a PackedSet behaves as a list of lists - explicit-state exploration of operation sequences on the real class
#include "mc.h"
#include "packed_sets.h"
#include "geometry_types.h"
#include <vector>
using namespace boofcv;
const char* mc_property = "C05";

static int counter;
template<class T> struct Val;
template<> struct Val<int> { static int make(int i) { return i * 7 + 1; } static bool eq(int a, int b) { return a == b; } static uint64_t h(int a) { return (uint64_t)a; } };
template<> struct Val<Point2D<S32>> {
    static Point2D<S32> make(int i) { return Point2D<S32>(i * 3 + 1, -i * 5 - 2); }
    static bool eq(const Point2D<S32>& a, const Point2D<S32>& b) { return a.x == b.x && a.y == b.y; }
    static uint64_t h(const Point2D<S32>& a) { return (uint64_t)(uint32_t)a.x << 32 | (uint32_t)a.y; }
};

template<class T> static void compare(mc::Ctx& c, PackedSet<T>& p, const std::vector<std::vector<T>>& m, uint32_t block) {
    if (p.number_of_sets() != m.size()) c.fail("sets", "holds %u sets, expected %zu", p.number_of_sets(), m.size());
    uint32_t tail = m.empty() ? 0 : (uint32_t)m.back().size();
    if (p.size_of_tail() != tail) c.fail("tail", "size of the tail set is %u, expected %u", p.size_of_tail(), tail);
    for (size_t i = 0; i < m.size(); i++) {
        std::vector<T> got; T dummy = Val<T>::make(9999); got.push_back(dummy);
        p.load_set((uint32_t)i, got);           // appends
        c.s->checks.fetch_add(1, std::memory_order_relaxed);
        if (got.size() != m[i].size() + 1 || !Val<T>::eq(got[0], dummy)) c.fail("load", "load_set(%zu) appended %zu elements, expected %zu (block size %u)", i, got.size() - 1, m[i].size(), block);
        for (size_t j = 0; j < m[i].size(); j++) {
            if (!Val<T>::eq(got[j + 1], m[i][j])) c.fail("element", "element %zu of set %zu is wrong in load_set (block size %u)", j, i, block);
            if (!Val<T>::eq(p.at((uint32_t)i, (uint32_t)j), m[i][j])) c.fail("element", "at(%zu,%zu) is wrong (block size %u)", i, j, block);
        }
        bool t = false; try { p.at((uint32_t)i, (uint32_t)m[i].size()); } catch (std::exception&) { t = true; }
        if (!t) c.fail("no-refusal", "at(%zu,%zu) past the end of the set was not refused", i, m[i].size());
        t = false; try { p.at((uint32_t)i, 0xffffffffu); } catch (std::exception&) { t = true; }
        if (!t) c.fail("no-refusal", "at(%zu,4294967295) was not refused", i);
    }
    bool t = false; try { p.at((uint32_t)m.size(), 0); } catch (std::exception&) { t = true; }
    if (!t) c.fail("no-refusal", "at(%zu,0) past the last set was not refused", m.size());
    t = false; std::vector<T> none; try { p.load_set((uint32_t)m.size(), none); } catch (std::exception&) { t = true; }
    if (!t || !none.empty()) c.fail("no-refusal", "load_set(%zu) past the last set was not refused", m.size());
    t = false; try { p.write_set((uint32_t)m.size(), none); } catch (std::exception&) { t = true; }
    if (!t) c.fail("no-refusal", "write_set(%zu) past the last set was not refused", m.size());
}

template<class T> static uint64_t fingerprint(PackedSet<T>& p, const std::vector<std::vector<T>>& m, uint32_t block) {
    uint64_t h = mc::mix(block, p._number_of_blocks);
    for (auto& s : m) { h = mc::mix(h, s.size() + 1000); for (auto& e : s) h = mc::mix(h, Val<T>::h(e)); }
    return h;
}

template<class T> static void run(mc::Ctx& c, uint32_t block, int depth, uint32_t prefill, int kind) {
    PackedSet<T>* p = new PackedSet<T>(block);
    struct Guard { PackedSet<T>* p; ~Guard() { delete p; } } guard{p};
    std::vector<std::vector<T>> m; int next = 0;
    auto push = [&]() { T v = Val<T>::make(next++); p->push_tail(v); if (m.empty()) m.emplace_back(); m.back().push_back(v); };
    // start from a non-initial state: some sets that end just around a block boundary
    if (prefill) {
        for (uint32_t i = 0; i < prefill; i++) { if (kind == 1 && i % 5 == 4) { p->start_new_set(); m.emplace_back(); } push(); }
        if (kind == 2) { p->start_new_set(); m.emplace_back(); }
        if (kind == 3) { p->clear(); m.clear(); next = 0; }
    }
    compare(c, *p, m, block);
    c.shard();
    for (int d = 0; d < depth; d++) {
        int op = c.choose(7, "op");
        switch (op) {
            case 0: push(); c.describe("push"); break;
            case 1: p->start_new_set(); m.emplace_back(); c.describe("start_new_set"); break;
            case 2: p->remove_tail(); if (!m.empty()) m.pop_back(); c.describe("remove_tail"); break;
            case 3: p->clear(); m.clear(); c.describe("clear"); break;
            case 4: { // overwrite a set
                if (m.empty()) continue;
                uint32_t i = m.size() == 1 ? 0 : (c.flag("which") ? 0 : (uint32_t)m.size() - 1);
                std::vector<T> in; for (size_t j = 0; j < m[i].size(); j++) in.push_back(Val<T>::make(500 + next++));
                p->write_set(i, in); m[i] = in; c.describe("write_set(%u)", i); break;
            }
            case 5: { // overwrite with the wrong length
                if (m.empty()) continue;
                uint32_t i = (uint32_t)m.size() - 1; std::vector<T> in(m[i].size() + 1, Val<T>::make(77));
                bool t = false; try { p->write_set(i, in); } catch (std::exception&) { t = true; }
                if (!t) c.fail("no-refusal", "write_set with a list one longer than the set was not refused");
                if (!m[i].empty()) {
                    in.resize(m[i].size() - 1, Val<T>::make(77)); t = false; try { p->write_set(i, in); } catch (std::exception&) { t = true; }
                    if (!t) c.fail("no-refusal", "write_set with a list one shorter than the set was not refused");
                }
                c.describe("write_set of the wrong length"); break;
            }
            default: { // fill up to one before, exactly to, or one past the next block boundary
                uint32_t used = 0; for (auto& s : m) used += (uint32_t)s.size();
                uint32_t n = block - used % block + c.choose(3, "past") ; if (n >= 1) n--;
                if (n == 0 || n > 4200) continue;
                for (uint32_t i = 0; i < n; i++) push();
                c.describe("push %u", n);
            }
        }
        c.step();
        compare(c, *p, m, block);
        uint64_t h = fingerprint(*p, m, block); c.state(h);
        // the values written depend on 'next', so it is part of the state
        if (c.seen(mc::mix(mc::mix(h, prefill * 8 + kind), (uint64_t)next * 2 + (sizeof(T) > 4)), depth - d - 1)) return;
    }
}

void mc_body(mc::Ctx& c) {
    bool big = c.flag("big");
    if (!big) {
        uint32_t block = 1 + c.choose(5, "block");
        bool pt = c.flag("point");
        uint32_t pre = c.choose(7, "prefill"), kind = pre ? c.choose(4, "kind") : 0;
        c.describe("block size %u, %u elements before (arrangement %u), %s", block, pre, kind, pt ? "points" : "ints");
        int depth = c.thorough ? 10 : 8;
        if (pt) run<Point2D<S32>>(c, block, depth - 1, pre, kind); else run<int>(c, block, depth, pre, kind);
    } else {
        // large blocks, around every boundary (the contour finder uses 2000)
        uint32_t block = c.pick({64u, 1000u, 2000u}, "block");
        uint32_t b = c.pick({1u, 2u, 3u}, "boundary"); int delta = (int)c.choose(3, "delta") - 1;
        uint32_t kind = c.choose(4, "kind");
        c.describe("block size %u, %u elements before (arrangement %u)", block, block * b + delta, kind);
        run<Point2D<S32>>(c, block, c.thorough ? 4 : 3, block * b + delta, kind);
    }
}
