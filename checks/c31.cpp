// C31: every history of images (other sizes, other contents, refused calls) on two filter objects of every kind; the output
// of each call must be the one a newly created object gives.
#include "threshold_block_filters.h"
#include "border_ref.h"
using namespace boofcv;
const char* mc_property = "C31";
struct Kind { const char* name; int id; int variant; };
static std::vector<Kind> kinds() {
    std::vector<Kind> r;
    for (int v = 0; v < 4; v++) { r.push_back({"fixed", 0, v}); r.push_back({"global Otsu", 1, v}); r.push_back({"local mean", 2, v}); }
    for (int v = 0; v < 8; v++) { r.push_back({"block mean", 3, v}); r.push_back({"block min-max", 4, v}); r.push_back({"block Otsu", 5, v}); }
    return r;
}
// variant bits: 0 down, 1 relative length, 2 local blocks (block kinds)
template<class E> static std::unique_ptr<InputToBinary<Gray<E>>> create(const Kind& k) {
    typedef std::unique_ptr<InputToBinary<Gray<E>>> P; bool down = k.variant & 1, rel = k.variant & 2, local = k.variant & 4; ConfigLength l = rel ? ConfigLength::relative(0.4, 2) : ConfigLength::fixed(3);
    switch (k.id) {
        case 0: return P(new GlobalFixedBinaryFilter<E>((E)(rel ? 17 : 100), down));
        case 1: return P(new GlobalOtsuBinaryFilter<E>((E)0, (E)255, down));
        case 2: return P(new LocalMeanBinaryFilter<E>(l, rel ? 0.95f : 1.0f, down));
        case 3: return P(new ThresholdBlockMean<E>(l, local, 0.95, down));
        case 4: return P(new ThresholdBlockMinMax<E>(10, l, local, 1.0f, down));
        default: return P(new ThresholdBlockOtsu<E>(rel, l, 0.1, 1.0, down, local));
    }
}
struct Image { uint32_t w, h; int data; bool view; uint32_t ow, oh; };       // ow x oh: the shape of the output handed over
static const Image images[] = {
    {6, 6, 0, false, 6, 6}, {6, 6, 1, false, 6, 6}, {13, 7, 2, true, 13, 7}, {3, 8, 3, false, 3, 8}, {7, 2, 4, false, 7, 2},      // block kinds refuse the last (too small)
    {6, 6, 5, false, 5, 6}, {9, 4, 6, true, 9, 4}, {0, 0, 0, false, 0, 0}, {6, 6, 7, true, 6, 6}, {1, 20, 8, false, 1, 20}, {16, 16, 9, false, 16, 16}, {40, 31, 10, true, 40, 31}, {257, 4, 11, false, 257, 4}, {3, 130, 12, false, 3, 130}};
static const int IMAGES = sizeof images / sizeof images[0];
template<class E> static std::vector<E> content(const Image& im) {
    std::vector<E> v(im.w * im.h); uint32_t s = im.data * 977 + 5;
    for (size_t i = 0; i < v.size(); i++) { uint32_t r = lcg(s); v[i] = (E)(im.data % 3 == 0 ? r % 256 : im.data % 3 == 1 ? (i % im.w < im.w / 2 ? 30 : 220) + r % 5 : 250 - r % 40); }
    return v;
}
struct Answer { bool refused; std::vector<U8> px; uint32_t w, h; bool operator==(const Answer& o) const { return refused == o.refused && (refused || (px == o.px && w == o.w && h == o.h)); } };
template<class E> static Answer call(mc::Ctx& c, InputToBinary<Gray<E>>& f, const Image& im, uint32_t seed) {
    Img<E> in(im.w, im.h, im.view ? 2 : 0, seed); std::vector<E> px = content<E>(im); in.set(px); Img<U8> out(im.ow, im.oh, im.view ? 3 : 0, seed + 1); Answer a{false, {}, 0, 0};
    try { f.process(in.g(), out.g()); } catch (std::exception&) { a.refused = true; }
    check_input(c, in, px, "input"); int64_t s = out.stray(); if (s >= 0) c.fail("stray-write", "memory around the output view was changed");
    Gray<U8>& g = out.g(); a.w = g.width; a.h = g.height; if (!a.refused) for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) a.px.push_back(g.at(x, y));
    return a;
}
template<class E> static void run(mc::Ctx& c, const Kind& k) {
    int depth = c.thorough ? 4 : 3; std::vector<int> img, obj; c.shard();
    static std::vector<Answer> fresh; static int fresh_kind = -1; int key = (k.id * 8 + k.variant) * 2 + (sizeof(E) > 1);
    if (fresh_kind != key) { fresh.clear(); for (int i = 0; i < IMAGES; i++) { auto f = create<E>(k); fresh.push_back(call<E>(c, *f, images[i], 100 + i)); } fresh_kind = key; }
    auto a = create<E>(k), b = create<E>(k); char t[200]; snprintf(t, sizeof t, "%s filter (variant %d, %s)", k.name, k.variant, type_name<E>()); c.describe("%s: ", t);
    uint64_t h = mc::mix(key, 7);
    for (int d = 0; d < depth; d++) {
        int o = d == 0 ? 0 : c.choose(2, "object"), i = c.choose(IMAGES, "image"); const Image& im = images[i];
        c.describe("object %d image %ux%u#%d output %ux%u; ", o, im.w, im.h, im.data, im.ow, im.oh); Answer r = call<E>(c, o ? *b : *a, im, 3 + d * 17); c.step(); c.s->checks.fetch_add(1 + r.px.size()); h = mc::mix(h, o * 64 + i); c.state(h);
        if (!(r == fresh[i])) {
            if (r.refused != fresh[i].refused) c.fail("refusal", "%s: call %d is %s but a new object %s it", t, d + 1, r.refused ? "refused" : "accepted", fresh[i].refused ? "refuses" : "accepts");
            c.fail("history", "%s: output of call %d (%ux%u image #%d) is %s, a new object gives %s", t, d + 1, im.w, im.h, im.data, show(r.px, r.w).c_str(), show(fresh[i].px, fresh[i].w).c_str());
        }
    }
}
void mc_body(mc::Ctx& c) { static const std::vector<Kind> ks = kinds(); const Kind& k = ks[c.choose((uint32_t)ks.size(), "kind")]; if (c.flag("float")) run<F32>(c, k); else run<U8>(c, k); }
