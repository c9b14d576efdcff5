// C33: point distances over boundary alphabets and whole small types; shape checks over every combination of shapes.
#include "geometry_types.h"
#include "sanity_checks.h"
#include "util.h"
using namespace boofcv;
const char* mc_property = "C33";
template<class E> static void measure(mc::Ctx& c, E ax, E ay, E bx, E by, double bound) {
    bool f = std::is_floating_point<E>::value; long double dx = (long double)bx - ax, dy = (long double)by - ay, want = dx * dx + dy * dy;
    if (std::abs(dx) > bound || std::abs(dy) > bound || want > (long double)bound * bound) return;      // the result must fit
    Point2D<E> a(ax, ay), b; c.ok(b.x == 0 && b.y == 0, "default", "a new point is not the origin"); b.x = bx; b.y = by; c.step(); c.s->checks.fetch_add(4);
    for (long double v : {(long double)a.distanceSq(b), (long double)b.distanceSq(a), (long double)a.distanceSq(bx, by), (long double)b.distanceSq(ax, ay)}) {
        long double e = f ? want * (sizeof(E) == 4 ? 1e-6L : 1e-14L) : 0;
        if (std::abs(v - want) > e || ((v == 0) != (dx == 0 && dy == 0) && !(f && want < 1e-30))) c.fail("distance", "%s distance of (%.9g,%.9g) and (%.9g,%.9g) is %.12Lg, expected %.12Lg", type_name<E>(), dv(ax), dv(ay), dv(bx), dv(by), v, want);
    }
    c.ok(a.x == ax && a.y == ay && b.x == bx && b.y == by, "changed", "measuring moved a point");
    E q[4] = {ax, ay, bx, by}; c.state(mc::hash_bytes(q, sizeof q, sizeof(E) * 4 + f * 2 + std::is_signed<E>::value));
}
template<class E> static std::vector<E> alphabet(bool small) {
    typedef std::numeric_limits<E> L; std::vector<E> v;
    if (std::is_floating_point<E>::value) { for (double d : {-1000.5, -3., -0.25, 0., 0.125, 1., 7.75, 12345.}) v.push_back((E)d); return v; }
    for (int64_t d : {(int64_t)L::lowest(), (int64_t)L::lowest() + 1, (int64_t)-20000, (int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)5, (int64_t)181, (int64_t)20000, (int64_t)46340, (int64_t)(L::max() / 2), (int64_t)L::max() - 1, (int64_t)L::max()}) if (d >= (int64_t)L::lowest() && d <= (int64_t)L::max()) v.push_back((E)d);
    return v;
}
// bound: the largest distance whose square fits the result type
template<class E> static void points(mc::Ctx& c, double bound) {
    std::vector<E> al = alphabet<E>(false); uint32_t i = c.choose(al.size(), "x"); c.shard(); c.describe("distances between all %s points of the alphabet", type_name<E>());
    for (E ay : al) for (E bx : al) for (E by : al) measure<E>(c, al[i], ay, bx, by, bound);
}
void mc_body(mc::Ctx& c) {
    switch (c.choose(10, "family")) {
        case 0: { int ax = c.choose(256, "x"); c.shard(); c.describe("all byte points with x=%d on a grid", ax); int st = c.thorough ? 1 : 5; for (int bx = 0; bx < 256; bx++) for (int ay = 0; ay < 256; ay += c.thorough ? 5 : 17) for (int by = 0; by < 256; by += st) measure<U8>(c, ax, ay, bx, by, 1e5); break; }
        case 1: points<U8>(c, 46340); break; case 2: points<S16>(c, 46340); break; case 3: points<U16>(c, 46340); break; case 4: points<S32>(c, 46340); break; case 5: points<F32>(c, 1e9); break; case 6: points<F64>(c, 1e15); break; case 7: points<S64>(c, 3e9); break;
        case 8: {   // shapes of two and three images, plain, views, interleaved, planar
            int w[3], h[3], n = c.thorough ? 5 : 4; for (int i = 0; i < 3; i++) { w[i] = c.choose(n, "width"); h[i] = c.choose(n, "height"); } c.shard(); c.describe("shapes %dx%d %dx%d %dx%d", w[0], h[0], w[1], h[1], w[2], h[2]); c.state(mc::hash_bytes(w, sizeof w, mc::hash_bytes(h, sizeof h)));
            for (int v = 0; v < (c.thorough ? 64 : 12); v++) { int k = c.thorough ? v : v * 5; std::unique_ptr<Img<U8>> a[3]; std::unique_ptr<Planar<Gray<F32>>> p[3]; const ImageBase* b[3];
                for (int i = 0; i < 3; i++) { int q = (k >> (2 * i)) & 3; if (q == 3) { p[i].reset(new Planar<Gray<F32>>(w[i], h[i], 2)); b[i] = p[i].get(); } else { a[i].reset(new Img<U8>(w[i], h[i], q == 2 ? 3 : q == 1 ? 2 : 0, 1, q == 2 ? 2 : 0)); b[i] = a[i]->gray ? (const ImageBase*)a[i]->gray.get() : a[i]->inter.get(); } }
                auto same = [&](int x, int y) { return w[x] == w[y] && h[x] == h[y]; }; c.step(2);
                c.ok(throws([&] { checkSameShape(*b[0], *b[1]); }) == !same(0, 1), "shape", "the two-image check is wrong"); c.ok(throws([&] { checkSameShape(*b[0], *b[1], *b[2]); }) == !(same(0, 1) && same(0, 2)), "shape", "the three-image check is wrong"); }
            break; }
        default: {  // large shapes, where a narrow comparison would wrap
            static const uint32_t s[] = {1, 255, 256, 257, 65535, 65536, 65537}; uint32_t w = s[c.choose(7, "width")], h = s[c.choose(7, "height")], w2 = s[c.choose(7, "width")], h2 = s[c.choose(7, "height")]; c.shard(); c.step(); c.describe("shapes %ux%u and %ux%u", w, h, w2, h2); U8 mem[4]; Gray<U8> a(mem, 4, w, h, 0, w), b(mem, 4, w2, h2, 0, w2); bool same = w == w2 && h == h2;
            c.ok(throws([&] { checkSameShape(a, b); }) == !same && throws([&] { checkSameShape(a, b, a); }) == !same && throws([&] { checkSameShape(a, a, b); }) == !same, "shape", "a shape check of large images is wrong"); c.state(mc::mix(mc::mix(w, h), mc::mix(w2, h2))); }
    }
}
