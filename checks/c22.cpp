// C22: binary logic and 4-neighbour morphology on every small binary image (pair), layouts, aliasing, old contents.
#include "binary_ops.h"
#include "util.h"
using namespace boofcv;
const char* mc_property = "C22";
static std::vector<U8> bits(uint64_t v, uint32_t n) { std::vector<U8> r(n); for (uint32_t i = 0; i < n; i++) r[i] = (v >> i) & 1; return r; }
static std::vector<U8> noise(uint32_t n, uint32_t seed, int density) { std::vector<U8> r(n); uint32_t s = seed; for (auto& x : r) x = (int)(lcg(s) % 8) < density; return r; }
static void morph(mc::Ctx& c, const std::vector<U8>& px, uint32_t w, uint32_t h, int lin, int lout) {
    std::vector<U8> er(px.size()), di(px.size());
    for (int y = 0; y < (int)h; y++) for (int x = 0; x < (int)w; x++) {
        auto at = [&](int a, int b) { return a >= 0 && b >= 0 && a < (int)w && b < (int)h && px[b * w + a]; };
        int n = at(x, y) + at(x - 1, y) + at(x + 1, y) + at(x, y - 1) + at(x, y + 1); er[y * w + x] = n == 5; di[y * w + x] = n > 0;
    }
    for (int op = 0; op < 2; op++) {
        Img<U8> in(w, h, lin, 3), out(w, h, lout, 5 + (uint32_t)px.size()); in.set(px); if (lout == 0) out.gray.reset(new Gray<U8>(h + 1, w));
        if (op) BinaryImageOps::dilate4(in.g(), out.g()); else BinaryImageOps::erode4(in.g(), out.g());
        check_output(c, out, op ? di : er, op ? "dilate4" : "erode4"); check_input(c, in, px, "input"); c.step();
    }
    c.state(mc::mix(mc::hash_bytes(px.data(), px.size()), w * 64 + h));
}
static void logic(mc::Ctx& c, const std::vector<U8>& a, const std::vector<U8>& b, uint32_t w, uint32_t h, int la, int lb, int lout, int alias) {
    for (int op = 0; op < 2; op++) {
        std::vector<U8> want(a.size()); Img<U8> A(w, h, la, 3), B(w, h, lb, 4), O(w, h, lout, 5); A.set(a); B.set(b); if (lout == 0) O.gray.reset(new Gray<U8>(h + 1, w));
        const std::vector<U8>& b2 = alias >= 3 ? a : b; Img<U8>& BB = alias >= 3 ? A : B; Img<U8>& out = alias == 1 || alias == 4 ? A : alias == 2 ? B : O;   // 1 out=A, 2 out=B, 3 A=B, 4 all the same
        for (size_t i = 0; i < a.size(); i++) want[i] = op ? a[i] || b2[i] : a[i] && b2[i];
        if (op) BinaryImageOps::logicOr(A.g(), BB.g(), out.g()); else BinaryImageOps::logicAnd(A.g(), BB.g(), out.g());
        check_output(c, out, want, op ? "logicOr" : "logicAnd"); if (&out != &A) check_input(c, A, a, "first input"); if (&out != &B) check_input(c, B, b, "second input"); c.step();
    }
    c.state(mc::mix(mc::mix(mc::hash_bytes(a.data(), a.size()), mc::hash_bytes(b.data(), b.size())), mc::mix(w * 64 + h, alias)));
}
void mc_body(mc::Ctx& c) {
    int fam = c.choose(6, "family"); int limit = c.thorough ? 20 : 15;
    if (fam == 5) {
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; uint32_t w = s.w, h = s.h; c.shard(); c.describe("erode, dilate, and, or of %ux%u images", w, h); int l = (int)((w * 3 + h) % 25);
        for (int d : {1, 4, 7}) { std::vector<U8> a = noise(w * h, w + d, d), b = noise(w * h, h * 3 + d, 4); morph(c, a, w, h, l % 5, l / 5); morph(c, a, w, h, 0, 0); logic(c, a, b, w, h, l % 5, (l + d) % 5, l / 5, 0); logic(c, a, b, w, h, 0, 0, 0, d % 4); }
        morph(c, std::vector<U8>(w * h, 1), w, h, l % 5, l / 5); return;
    }
    if (fam == 0) {     // every binary image
        uint32_t w = 1 + c.choose(limit, "width"), h = 1 + c.choose(limit, "height"); if ((int)(w * h) > limit) return; uint32_t n = w * h, hi = n > 10 ? n - 10 : 0; uint64_t part = c.choose(1u << hi, "part"); c.shard();
        c.describe("erode and dilate every %ux%u binary image (part %llu)", w, h, (unsigned long long)part); uint64_t lo = 1ull << (n - hi);
        for (uint64_t k = 0; k < lo; k++) { uint64_t v = part * lo + k; int l = (int)((v * 7 + w) % 25); morph(c, bits(v, n), w, h, l % 5, l / 5); }
    } else if (fam == 1) {      // every layout pair on larger shapes, a single odd pixel anywhere
        uint32_t w = c.choose(c.thorough ? 11 : 8, "width"), h = c.choose(c.thorough ? 11 : 8, "height"); int l = c.choose(25, "layouts"); c.shard(); c.describe("erode and dilate %ux%u images with one odd pixel, layouts %s/%s", w, h, layout_name[l % 5], layout_name[l / 5]);
        for (int base = 0; base < 2; base++) for (uint32_t i = 0; i <= w * h; i++) { std::vector<U8> v(w * h, (U8)base); if (i < w * h) v[i] = !base; morph(c, v, w, h, l % 5, l / 5); }
        for (int d = 1; d < 8; d++) morph(c, noise(w * h, w * 77 + h + d, d), w, h, l % 5, l / 5);
        if (w && h) morph(c, noise((w + 20) * (h + 17), w * 7 + h, 6), w + 20, h + 17, l % 5, l / 5);
    } else if (fam == 2) {      // every pair of images
        int m = c.thorough ? 8 : 6; uint32_t w = 1 + c.choose(m, "width"), h = 1 + c.choose(m, "height"), n = w * h; if ((int)n > m) return; int alias = c.choose(5, "aliasing"); uint32_t a = c.choose(1u << n, "first image"); c.shard();
        c.describe("and/or of every pair of %ux%u images, aliasing %d", w, h, alias);
        for (uint32_t b = 0; b < (alias >= 3 ? 1u : 1u << n); b++) { int q = (int)((a * 31 + b * 7 + w) % 125); logic(c, bits(a, n), bits(b, n), w, h, q % 5, q / 5 % 5, q / 25, alias); }
    } else if (fam == 3) {      // every layout triple
        uint32_t w = c.choose(c.thorough ? 9 : 6, "width"), h = c.choose(c.thorough ? 9 : 6, "height"); int alias = c.choose(5, "aliasing"); c.shard(); c.describe("and/or of %ux%u images in every layout", w, h);
        for (int q = 0; q < 125; q++) for (int s = 0; s < 3; s++) logic(c, noise(w * h, q * 3 + s, 4), noise(w * h, q * 5 + s + 1, 2 + 2 * s), w, h, q % 5, q / 5 % 5, q / 25, alias);
        if (alias == 0 && w) logic(c, noise((w + 30) * (h + 11), 9, 4), noise((w + 30) * (h + 11), 8, 4), w + 30, h + 11, 1, 2, 3, 0);
    } else {            // different shapes are refused and nothing changes
        uint32_t w = c.choose(4, "width"), h = c.choose(4, "height"), w2 = c.choose(4, "width"), h2 = c.choose(4, "height"); c.shard(); c.step(); c.describe("and/or of %ux%u with %ux%u", w, h, w2, h2);
        for (int lo = 0; lo < 2; lo++) for (int op = 0; op < 2; op++) {
            Img<U8> A(w, h, 0, 3), B(w2, h2, 0, 4), O(w, h, lo * 2, 5); A.set(noise(w * h, 1, 4)); B.set(noise(w2 * h2, 2, 4)); std::vector<U8> a = A.get(), b = B.get(), o = O.get(); bool t = throws([&] { if (op) BinaryImageOps::logicOr(A.g(), B.g(), O.g()); else BinaryImageOps::logicAnd(A.g(), B.g(), O.g()); });
            c.ok(t == (w != w2 || h != h2), "no-refusal", t ? "equal shapes were refused" : "different shapes were not refused"); check_input(c, A, a, "first input"); check_input(c, B, b, "second input"); if (t) check_input(c, O, o, "output");
            // an output view of another shape cannot be reshaped
            if (!t && w2 && h2) { Img<U8> V(w + 1, h, 2, 6), V2(w, h + 1, 2, 6); std::vector<U8> v = V.get(), v2 = V2.get(); c.ok(throws([&] { BinaryImageOps::logicOr(A.g(), B.g(), V.g()); }) && throws([&] { BinaryImageOps::erode4(A.g(), V.g()); }) && throws([&] { BinaryImageOps::dilate4(A.g(), V2.g()); }), "no-refusal", "an output view of another shape was not refused"); check_input(c, V, v, "view"); check_input(c, V2, v2, "view"); }
        }
    }
}
