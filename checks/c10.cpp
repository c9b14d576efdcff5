// C10: border access, for every shape, layout, policy, pixel type and every coordinate of a wide window around the image.
#include "border_ref.h"
using namespace boofcv;
const char* mc_property = "C10";

template<class E> static void image_case(mc::Ctx& c, uint32_t w, uint32_t h, int lay, int type, std::shared_ptr<ImageBorder<E>> b, E value, uint32_t seed, bool far) {
    Img<E> im(w, h, lay, seed); std::vector<E> v = pixels<E>(w * h, 0, 1); for (auto& e : v) e = (E)(e + seed); im.set(v);
    b->setImage(im.g());
    if (b->getWidth() != w || b->getHeight() != h) c.fail("size", "border of a %ux%u image reports %ux%u", w, h, b->getWidth(), b->getHeight());
    std::vector<int32_t> xs, ys;
    auto fill = [&](std::vector<int32_t>& s, int n) {
        if (far) for (int32_t q : {INT32_MIN, INT32_MIN + 1, -65537, -65536, -1000001, INT32_MAX, INT32_MAX - 1, 65535, 65536, 1000003}) s.push_back(q);
        int m = n <= 6 ? 4 * n + 3 : n + 5; for (int i = -m; i < n + m; i++) s.push_back(i);
    };
    fill(xs, w); fill(ys, h);
    for (int32_t y : ys) for (int32_t x : xs) {
        E got = b->get(x, y), want = ref_pixel<E>(v, w, h, x, y, type, value);
        if (!(got == want)) c.fail("border", "%s border of a %ux%u image (%s) at (%d,%d) is %g, expected %g", border_name[type], w, h, layout_name[lay], x, y, dv(got), dv(want));
        bool inside = x >= 0 && y >= 0 && x < (int)w && y < (int)h;
        if (!inside && !(b->outside_get(x, y) == want)) c.fail("border", "outside_get of the %s border of a %ux%u image at (%d,%d) is %g, expected %g", border_name[type], w, h, x, y, dv(b->outside_get(x, y)), dv(want));
    }
    check_input(c, im, v, "bordered");
    c.s->checks.fetch_add(xs.size() * ys.size() * 2, std::memory_order_relaxed);
    c.step(xs.size() * ys.size()); c.state(mc::mix(mc::mix(w * 100 + h, lay * 16 + type), mc::mix(sizeof(E) * 2 + std::is_floating_point<E>::value, mc::hash_bytes(&value, sizeof value))));
}
template<class E> static void run(mc::Ctx& c) {
    int fam = c.choose(5, "family");
    if (fam == 3) {
        c.shard(); c.step(); c.describe("unsupported border types");
        c.ok(throws([] { FactoryImageBorder::create_SB<E>(SKIP); }) && throws([] { FactoryImageBorder::create_SB<E>(NORMALIZED); }) && throws([] { FactoryImageBorder::create_SB<E>((BorderType)99); }), "no-refusal", "an unsupported border type was not refused");
        return;
    }
    int type = c.choose(RB_COUNT, "policy"); E value = 0;
    if (type == RB_VALUE) value = c.pick({(E)0, (E)7, (E)200, std::numeric_limits<E>::max(), std::numeric_limits<E>::lowest()}, "value");
    if (fam == 0) {
        int n = c.thorough ? 9 : 6; uint32_t w = 1 + c.choose(n, "width"), h = 1 + c.choose(n, "height"); int lay = c.choose(LAYOUTS, "layout"); c.shard();
        c.describe("%s border, %ux%u image, %s, value %g", border_name[type], w, h, layout_name[lay], dv(value));
        image_case<E>(c, w, h, lay, type, make_border<E>(type, value), value, 3, true);
    } else if (fam == 1) {
        uint32_t w = c.pick({1u, 2u, 17u, 64u, 65u, 300u}, "width"), h = c.pick({1u, 3u, 18u, 33u, 129u}, "height"); if (w * h > 4000) return; int lay = c.choose(LAYOUTS, "layout"); c.shard();
        c.describe("%s border, %ux%u image, %s, value %g", border_name[type], w, h, layout_name[lay], dv(value));
        image_case<E>(c, w, h, lay, type, make_border<E>(type, value), value, 2, true);
    } else if (fam == 4) {      // large shapes: all coordinates near the edges and far away
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; if (type == RB_VALUE && !(value == (E)7)) return; c.shard(); uint32_t w = s.w, h = s.h; int lay = (w + h) % LAYOUTS; c.describe("%s border, %ux%u image", border_name[type], w, h);
        auto b = make_border<E>(type, value); Img<E> im(w, h, lay, 5); std::vector<E> v = pixels<E>(w * h, 0, 1); uint32_t sd = w; for (auto& e : v) e = (E)(lcg(sd) % 250); im.set(v); b->setImage(im.g());
        auto near = [](int n) { std::vector<int> r; for (int i = -9; i <= 9; i++) for (int q : {0, n / 2, n, 2 * n, 3 * n, -n, -2 * n, 70000, -70000}) r.push_back(q + i); return r; }; std::vector<int> xs = near(w), ys = near(h);
        for (int y : ys) for (int x : xs) { E got = b->get(x, y), want = ref_pixel<E>(v, w, h, x, y, type, value); if (!(got == want)) c.fail("border", "%s border of a %ux%u image (%s) at (%d,%d) is %g, expected %g", border_name[type], w, h, layout_name[lay], x, y, dv(got), dv(want)); }
        check_input(c, im, v, "bordered"); c.s->checks.fetch_add(xs.size() * ys.size()); c.step(xs.size() * ys.size()); c.state(mc::mix(mc::mix(w * 70000ull + h, type), sizeof(E) * 2 + std::is_floating_point<E>::value));
    } else { // one border object used for a sequence of images; and objects constructed directly
        uint32_t a = c.choose(6, "first"), b = c.choose(6, "second"); c.shard();
        static const uint32_t S[6][2] = {{1, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {5, 5}};
        c.describe("%s border used for %ux%u then %ux%u", border_name[type], S[a][0], S[a][1], S[b][0], S[b][1]);
        auto o = make_border<E>(type, value); image_case<E>(c, S[a][0], S[a][1], a % LAYOUTS, type, o, value, 3, false); image_case<E>(c, S[b][0], S[b][1], b % LAYOUTS, type, o, value, 90, false);
        if (type == RB_EXTENDED) image_case<E>(c, S[a][0], S[a][1], 1, type, std::make_shared<ImageBorderExtend<E>>(), value, 3, false);
        if (type == RB_REFLECT) image_case<E>(c, S[a][0], S[a][1], 1, type, std::make_shared<ImageBorderReflect<E>>(), value, 3, false);
        if (type == RB_WRAP) image_case<E>(c, S[a][0], S[a][1], 1, type, std::make_shared<ImageBorderWrap<E>>(), value, 3, false);
        if (type == RB_VALUE) { Img<E> im(2, 2, 0); std::vector<E> v = {1, 2, 3, 4}; im.set(v); ImageBorderValue<E> q(im.g(), value); if (!(q.get(-1, 0) == value) || !(q.get(1, 1) == (E)4) || !(q.get(0, 2) == value)) c.fail("border", "a value border constructed with an image is wrong"); }
    }
}
void mc_body(mc::Ctx& c) {
    switch (c.choose(6, "type")) { case 0: run<U8>(c); break; case 1: run<S16>(c); break; case 2: run<U16>(c); break; case 3: run<S32>(c); break; case 4: run<F32>(c); break; default: run<F64>(c); }
}
