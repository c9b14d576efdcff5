// C26: every illegal call of the alphabet at every position of short histories of legal calls on one pool of objects.
// An illegal call must raise an error, change no input, write nothing outside its outputs and leave every object usable:
// the legal calls after it must give what they give on a fresh pool.
#include "world.h"
using namespace boofcv;
const char* mc_property = "C26";
template<class E> static void body(mc::Ctx& c) {
    auto& cs = calls<E>(); static std::vector<R> expected; static R cont; static std::vector<int> illegal;
    if (expected.empty()) { for (size_t i = 0; i < cs.size(); i++) { if (!cs[i].legal) { illegal.push_back(i); expected.push_back(R()); continue; } World<E> w; expected.push_back(cs[i].f(w)); } World<E> w; cont = w.containers(); }
    int depth = c.choose(c.thorough ? 4 : 3, "length") + 1; uint32_t n = (uint32_t)cs.size(), ni = (uint32_t)illegal.size(), nl = n - ni; World<E> w; int bad = 0; uint64_t h = 77 + sizeof(E);
    for (int d = 0; d < depth; d++) {
        // a history without an illegal call, or one that ends with two, adds nothing to the others
        bool last = d == depth - 1; uint32_t i;
        if (depth == 1) i = c.choose(n, "call"); else if (last) { i = c.choose(nl, "legal call"); } else if (depth == 4 && d == 0) i = c.choose(nl, "legal call"); else if (!bad && (d == depth - 2 || depth == 4))  i = (uint32_t)illegal[c.choose(ni, "illegal call")]; else i = c.choose(n, "call");
        if (d == (depth > 1 ? 1 : 0)) c.shard();
        const Call<E>& k = cs[i]; c.describe("%s; ", k.name); c.step(); c.s->checks.fetch_add(1); h = mc::mix(h, i); c.state(h);
        if (k.legal) {
            R got = k.f(w); if (got != expected[i]) c.fail("later-result", "'%s' gives another result after the refused calls before it than on new objects (%s)", k.name, c.description.c_str());
        } else {
            bad++; bool t = false; try { k.f(w); } catch (std::exception&) { t = true; } catch (const char*) { t = true; }
            if (!t) c.fail("no-error", "'%s' was not refused", k.name);
            if (w.containers() != cont) c.fail("state", "the refused '%s' changed an object", k.name);
        }
        std::string p = w.problem(); if (!p.empty()) c.fail("damage", "after '%s': %s", k.name, p.c_str());
    }
}
void mc_body(mc::Ctx& c) { if (c.flag("float")) body<F32>(c); else body<U8>(c); }
