// C24: every operation of the library on every combination of memory layouts of its operands and on two different earlier
// contents of its outputs and work images, against the run on plain images.
#include "ops.h"
const char* mc_property = "C24";
void mc_body(mc::Ctx& c) {
    static const std::vector<Op> ops = all_ops(); const Op& op = ops[c.choose((uint32_t)ops.size(), "operation")];
    int fam = c.choose(3, "family"); uint32_t w, h; static const uint32_t big[][2] = {{17, 5}, {4, 19}, {23, 22}, {64, 3}, {12, 12}};
    if (fam == 0) { uint32_t n = c.thorough ? 11 : 7; w = c.choose(n, "width"); h = c.choose(n, "height"); } else if (fam == 1) { int q = c.choose(5, "shape"); w = big[q][0]; h = big[q][1]; } else { const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; w = s.w; h = s.h; if (w * h > (c.thorough ? 25000u : 6000u)) return; }
    int data = c.choose(c.thorough ? 4 : 2, "data"); c.shard(); c.describe("%s on %ux%u images in every combination of layouts", op.name.c_str(), w, h);
    Args plain(w, h, {}, 1, data); run_op(op, plain); std::string p = plain.problem(); if (!p.empty() && !plain.threw) c.fail("plain", "%s on plain %ux%u images: %s", op.name.c_str(), w, h, p.c_str());
    size_t n = plain.next; uint64_t combos = 1; for (size_t i = 0; i < n; i++) combos *= LAYOUTS; double mag = 1; for (double v : plain.result) mag = std::max(mag, std::abs(v));
    for (uint64_t k = 0; k < combos; k++) {
        if (fam == 2 && k % 31 != (w + h + (uint64_t)(&op - &ops[0])) % 31) continue;       // one in 31 combinations on large shapes
        std::vector<int> l(n); uint64_t z = k; for (auto& x : l) { x = (int)(z % LAYOUTS); z /= LAYOUTS; }
        Args a(w, h, l, 2 + (uint32_t)k * 31, data); run_op(op, a); c.step(); c.s->checks.fetch_add(1 + a.result.size()); c.state(mc::mix(mc::mix(&op - &ops[0], k), mc::mix(w * 128 + h, data)));
        std::string ls; for (int x : l) { ls += layout_name[x]; ls += " "; }
        if (a.threw != plain.threw) c.fail("refusal", "%s on %ux%u images, layouts %s: %s, but %s on plain images", op.name.c_str(), w, h, ls.c_str(), a.threw ? "refused" : "accepted", plain.threw ? "refused" : "accepted");
        p = a.problem(); if (!p.empty()) c.fail("view", "%s on %ux%u images, layouts %s: %s", op.name.c_str(), w, h, ls.c_str(), p.c_str());
        if (a.threw) continue;
        if (a.result.size() != plain.result.size()) c.fail("result", "%s on %ux%u images, layouts %s: %zu result values, %zu on plain images", op.name.c_str(), w, h, ls.c_str(), a.result.size(), plain.result.size());
        for (size_t i = 0; i < a.result.size(); i++) if (!(std::abs(a.result[i] - plain.result[i]) <= (op.name.find("F32") != std::string::npos ? mag * 1e-5 : 0))) c.fail("result", "%s on %ux%u images, layouts %s: result value %zu is %.9g, on plain images %.9g", op.name.c_str(), w, h, ls.c_str(), i, a.result[i], plain.result[i]);
    }
}
