// C09: kernels as containers (all histories up to a depth), their statistics (all small weight vectors), generators (a
// full grid of widths and sigmas) and refusals.
#include "util.h"
#include "convolve_kernels.h"
using namespace boofcv;
const char* mc_property = "C09";

template<class E> constexpr bool isf() { return std::is_floating_point<E>::value; }
template<class E> static E wv(uint32_t k) { return isf<E>() ? (E)((int)(k * 7 % 23) * 0.5 - 4) : std::is_signed<E>::value ? (E)((int)(k * 7 % 23) - 9) : (E)(k * 7 % 251 + 1); }
template<class E, int D> struct KT; template<class E> struct KT<E, 1> { typedef Kernel1D<E> K; }; template<class E> struct KT<E, 2> { typedef Kernel2D<E> K; };
template<class E> static E get(Kernel1D<E>& k, uint32_t i) { return k.at(i); }
template<class E> static E get(Kernel2D<E>& k, uint32_t i) { return k.at(i % k.width, i / k.width); }
template<class E> static void put(Kernel1D<E>& k, uint32_t i, E v) { if (i & 1) k[i] = v; else k.at(i) = v; }
template<class E> static void put(Kernel2D<E>& k, uint32_t i, E v) { k.at(i % k.width, i / k.width) = v; }
template<class E> static bool oob(Kernel1D<E>& k) { return throws([&] { k.at(k.width); }) && throws([&] { k.at(0xffffffffu); }); }
template<class E> static bool oob(Kernel2D<E>& k) { return throws([&] { k.at(k.width, 0); }) && throws([&] { k.at(0, k.width); }) && throws([&] { k.at(0xffffffffu, 0); }); }

// weights, width, origin and every statistic against a plain list
template<class K, class E> static void verify(mc::Ctx& c, K& k, uint32_t w, uint32_t off, const std::vector<E>& v, int dim) {
    if (k.width != w || k.offset != off) c.fail("kernel-shape", "kernel has width %u origin %u, expected %u and %u", k.width, k.offset, w, off);
    if ((int)k.dimension() != dim || k.radius() != w / 2) c.fail("kernel-shape", "dimension %u radius %u for a %dD kernel of width %u", k.dimension(), k.radius(), dim, w);
    double sum = 0, mx = -1e300, mn = 1e300, ax = -1, an = 1e300;
    for (uint32_t i = 0; i < v.size(); i++) {
        E g = get(k, i); if (!(g == v[i])) c.fail("weight", "weight %u of a %dD kernel of width %u is %g, expected %g", i, dim, w, dv(g), dv(v[i]));
        if (!(k.data[i] == v[i])) c.fail("weight", "stored weight %u of a %dD kernel of width %u is %g, expected %g", i, dim, w, dv(k.data[i]), dv(v[i]));
        double d = (double)v[i]; sum += d; mx = std::max(mx, d); mn = std::min(mn, d); ax = std::max(ax, std::abs(d)); an = std::min(an, std::abs(d));
    }
    if (!v.empty()) {
        if ((double)k.sum() != sum) c.fail("sum", "sum is %g, expected %g for weights %s", (double)k.sum(), sum, show(v, 0).c_str());
        if ((double)k.element_max() != mx) c.fail("max", "element_max is %g, expected %g for weights %s", (double)k.element_max(), mx, show(v, 0).c_str());
        if ((double)k.element_min() != mn) c.fail("min", "element_min is %g, expected %g for weights %s", (double)k.element_min(), mn, show(v, 0).c_str());
        if ((double)k.element_abs_max() != ax) c.fail("absmax", "element_abs_max is %g, expected %g for weights %s", (double)k.element_abs_max(), ax, show(v, 0).c_str());
        if ((double)k.element_abs_min() != an) c.fail("absmin", "element_abs_min is %g, expected %g for weights %s", (double)k.element_abs_min(), an, show(v, 0).c_str());
        if (!oob(k)) c.fail("no-refusal", "weights outside a %dD kernel of width %u can be accessed", dim, w);
    }
    c.s->checks.fetch_add(v.size() * 2 + 7, std::memory_order_relaxed);
}

template<class E, int D> static void histories(mc::Ctx& c, int depth) {
    typedef typename KT<E, D>::K K;
    struct M { uint32_t w = 0, off = 0; std::vector<E> v; };
    std::unique_ptr<K> k[2]; M m[2]; uint32_t next = 1;
    k[0].reset(new K()); k[1].reset(new K(3u, 1u)); m[1].w = 3; m[1].off = 1; m[1].v.assign(D == 1 ? 3 : 9, 0);
    auto fresh = [&](int i) { m[i].v.assign(D == 1 ? m[i].w : m[i].w * m[i].w, 0); };
    auto paint = [&](int i) { for (uint32_t q = 0; q < m[i].v.size(); q++) { m[i].v[q] = wv<E>(next++); put(*k[i], q, m[i].v[q]); } };
    uint64_t h = D * 100 + sizeof(E) * 2 + isf<E>();
    for (int d = 0; d < depth; d++) {
        int i = c.choose(2, "kernel"), op = c.choose(7, "op");
        switch (op) {
            case 0: { uint32_t w = 1 + c.choose(4, "width"), o = c.choose(w, "origin"); k[i].reset(new K(w, o)); m[i].w = w; m[i].off = o; fresh(i); c.describe("k%d = new(%u,%u)", i, w, o); verify(c, *k[i], w, o, m[i].v, D); paint(i); break; }
            case 1: { uint32_t w = 1 + c.choose(4, "width"); k[i].reset(new K(w)); m[i].w = w; m[i].off = w / 2; fresh(i); c.describe("k%d = new(%u)", i, w); break; }
            case 2: { uint32_t w = 1 + c.choose(5, "width"), o = c.choose(2, "origin") ? w - 1 : 0; k[i]->reshape(w, o); m[i].w = w; m[i].off = o; fresh(i); paint(i); c.describe("k%d.reshape(%u,%u)", i, w, o); break; }
            case 3: *k[i] = *k[1 - i]; m[i] = m[1 - i]; c.describe("k%d = k%d", i, 1 - i); break;
            case 4: { std::unique_ptr<K> t(new K(*k[1 - i])); k[i] = std::move(t); m[i] = m[1 - i]; c.describe("k%d is a copy of k%d", i, 1 - i); break; }
            case 5: if (m[i].v.empty()) return; { uint32_t q = c.flag("last") ? (uint32_t)m[i].v.size() - 1 : 0; E v = wv<E>(next++); put(*k[i], q, v); m[i].v[q] = v; c.describe("k%d[%u]=%g", i, q, dv(v)); } break;
            default: *k[i] = *&*k[i]; c.describe("k%d = k%d", i, i);
        }
        if (d == 1) c.shard();
        c.step();
        if (d == depth - 1 || c.verbose) for (int q = 0; q < 2; q++) verify(c, *k[q], m[q].w, m[q].off, m[q].v, D);
        for (auto& x : m) h = mc::mix(mc::mix(h, x.w * 16 + x.off), mc::hash_bytes(x.v.data(), x.v.size() * sizeof(E)));
    }
    c.state(h);
}

template<class E> static void statistics(mc::Ctx& c) {
    std::vector<E> al; if (isf<E>()) al = {(E)-2.5, (E)-1, 0, (E)0.5, (E)3, (E)100}; else if (std::is_signed<E>::value) al = {(E)-100, (E)-3, 0, 1, 2, 100}; else al = {0, 1, 2, 127, 128, 255};
    bool two = c.flag("2D"); uint32_t w = two ? 2 : 1 + c.choose(c.thorough ? 5 : 4, "width"), n = two ? 4 : w; std::vector<E> v(n);
    for (auto& x : v) x = c.pick(al, "weight");
    c.shard(); c.step(); c.state(mc::hash_bytes(v.data(), n * sizeof(E), sizeof(E) * 4 + isf<E>() * 2 + two));
    c.describe("statistics of %s", show(v, 0).c_str());
    if (two) { Kernel2D<E> k(1, {{v[0], v[1]}, {v[2], v[3]}}); verify(c, k, 2, 1, v, 2); }
    else { Kernel1D<E> k(w, w / 2); for (uint32_t i = 0; i < w; i++) k[i] = v[i]; verify(c, k, w, w / 2, v, 1); if (w == 3) { Kernel1D<E> q(0, {v[0], v[1], v[2]}); verify(c, q, 3, 0, v, 1); } }
}

static const std::vector<double>& sigmas() { static const std::vector<double> s = {-1, 0, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 1, 1.2, 1.4, 1.5, 2, 2.3, 3, 4.7, 7, 12}; return s; }
static bool gauss_ref(double sigma, int width, std::vector<double>& g) {      // false: must be refused
    if (width <= 0) { if (sigma <= 0) return false; width = 2 * (int)std::ceil((5 * sigma - 1) / 2) + 1; if (width <= 0) width = 1; }
    else if (sigma <= 0) sigma = (2 * (width / 2) + 1) / 5.0;
    g.resize(width); double s = 0;
    for (int i = 0; i < width; i++) { double x = i - (width - 1) / 2.0; g[i] = std::exp(-x * x / (2 * sigma * sigma)); s += g[i]; }
    for (auto& x : g) x /= s;
    return true;
}
template<class E> static void near(mc::Ctx& c, E got, double want, double scale, uint32_t i, uint32_t w) {
    double tol = (sizeof(E) == 4 ? 2e-5 : 1e-9) * scale;
    if (!(std::abs((double)got - want) <= tol)) c.fail("gaussian", "weight %u of a Gaussian kernel of width %u is %.9g, expected %.9g", i, w, dv(got), want);
}
// integer weight: the floating weight divided by the smallest significant one, truncated
template<class E> static void ints(mc::Ctx& c, E got, double r, uint32_t i, uint32_t w) {
    double lo = std::floor(r - 1e-6), hi = std::floor(r + 1e-6);
    if (!((double)got >= lo && (double)got <= hi)) c.fail("gaussian-int", "weight %u of an integer Gaussian kernel of width %u is %g, expected the floating one scaled, %.9g", i, w, dv(got), r);
}
template<class E> static void gaussian(mc::Ctx& c, bool two, int width, double sigma);
template<class E> static void generators(mc::Ctx& c) {
    bool two = c.flag("2D"); int width = (int)c.choose(two ? (c.thorough ? 24 : 14) : (c.thorough ? 68 : 44), "width") - 2; double sigma = c.pick(sigmas(), "sigma");
    c.shard(); gaussian<E>(c, two, width, sigma);
}
// two kernels in a row, every ordered pair of settings: the second must not be affected by the first
template<class E> static void generator_pairs(mc::Ctx& c) {
    struct P { bool two; int width; double sigma; }; static std::vector<P> all;
    if (all.empty()) for (int two = 0; two < 2; two++) for (int width : {-1, 0, 2, 3, 4, 5, 7}) for (double sigma : {-1., 0., 0.5, 1., 1.3, 2.}) all.push_back({two == 1, width, sigma});
    const P& a = all[c.choose((uint32_t)all.size(), "first kernel")]; c.shard();
    for (auto& b : all) { gaussian<E>(c, a.two, a.width, a.sigma); gaussian<E>(c, b.two, b.width, b.sigma); c.state(mc::mix(mc::mix(&a - &all[0], &b - &all[0]), sizeof(E) * 2 + isf<E>() + 5000)); }
}
template<class E> static void gaussian(mc::Ctx& c, bool two, int width, double sigma) {
    c.step(); c.state(mc::mix(mc::mix(sizeof(E) * 4 + isf<E>() * 2 + two, width), (uint64_t)(sigma * 1000 + 5000)));
    c.describe("%dD Gaussian, width %d sigma %g", two ? 2 : 1, width, sigma);
    if (width == 1 && sigma <= 0) return;       // no sigma is defined for radius 0: refused or trivial, both fine
    std::vector<double> g; bool legal = gauss_ref(sigma, width, g);
    if (two && legal && g.size() > 40) return;
    if (!legal) {
        bool t = two ? throws([&] { FactoryKernel::gaussian2D<E>(sigma, width); }) : throws([&] { FactoryKernel::gaussian1D<E>(sigma, width); });
        c.ok(t, "no-refusal", "a Gaussian kernel without width and sigma was not refused"); return;
    }
    uint32_t w = (uint32_t)g.size(), n = two ? w * w : w; std::vector<double> want(n); for (uint32_t i = 0; i < n; i++) want[i] = two ? g[i % w] * g[i / w] : g[i];
    std::vector<E> got(n); uint32_t kw, ko;
    if (two) { Kernel2D<E> k = FactoryKernel::gaussian2D<E>(sigma, width); kw = k.width; ko = k.offset; if (kw == w) for (uint32_t i = 0; i < n; i++) got[i] = k.at(i % w, i / w); }
    else { Kernel1D<E> k = FactoryKernel::gaussian1D<E>(sigma, width); kw = k.width; ko = k.offset; if (kw == w) for (uint32_t i = 0; i < n; i++) got[i] = k.at(i); }
    if (kw != w || ko != w / 2) c.fail("kernel-shape", "%dD Gaussian kernel for width %d sigma %g has width %u origin %u, expected %u and %u", two ? 2 : 1, width, sigma, kw, ko, w, w / 2);
    double mx = *std::max_element(want.begin(), want.end()), mn = *std::min_element(want.begin(), want.end());
    if (isf<E>()) {
        double s = 0; for (uint32_t i = 0; i < n; i++) { near(c, got[i], want[i], mx, i, w); s += (double)got[i]; }
        if (std::abs(s - 1) > (sizeof(E) == 4 ? 1e-4 : 1e-9)) c.fail("gaussian-sum", "a Gaussian kernel of width %u sums to %.9g", w, s);
    } else { double m = std::max(mn, mx / 100); for (uint32_t i = 0; i < n; i++) ints(c, got[i], want[i] / m, i, w); }
    for (uint32_t i = 0; i < n; i++) { E a = got[i], b = got[n - 1 - i]; if (isf<E>() ? std::abs((double)(a - b)) > 1e-6 * mx : a != b) c.fail("symmetry", "a Gaussian kernel of width %u is not symmetric", w); }
    c.s->checks.fetch_add(2 * n, std::memory_order_relaxed);
}
template<class E> static void tables(mc::Ctx& c) {
    uint32_t w = 1 + c.choose(70, "width"); c.shard(); c.step(); c.state(mc::mix(w, sizeof(E) * 2 + isf<E>())); c.describe("table and mean kernel of width %u", w);
    Kernel1D<E> t = FactoryKernel::table1D<E>(w); std::vector<E> ones(w, (E)1); verify(c, t, w, w / 2, ones, 1);
    Kernel1D<E> m = FactoryKernel::mean1D<E>(w);
    if (m.width != w || m.offset != w / 2) c.fail("kernel-shape", "mean kernel of width %u has width %u origin %u", w, m.width, m.offset);
    for (uint32_t i = 0; i < w; i++) { if (!(m.at(i) == m.at(0))) c.fail("mean", "the weights of a mean kernel of width %u differ", w); if (isf<E>() && std::abs((double)m.at(i) * w - 1) > 1e-5) c.fail("mean", "weight of a mean kernel of width %u is %.9g", w, dv(m.at(i))); }
    // normalising leaves the ratios, and the sum becomes one
    for (int dim = 1; dim <= 2; dim++) if (isf<E>() && (dim == 1 || w <= 12)) {
        uint32_t n = dim == 1 ? w : w * w; Kernel1D<E> a(w); Kernel2D<E> b(w); KernelBase<E>& k = dim == 1 ? (KernelBase<E>&)a : (KernelBase<E>&)b; double s = 0;
        for (uint32_t i = 0; i < n; i++) { k.data[i] = (E)(1 + (i * 5 % 7)); s += 1 + (i * 5 % 7); }
        FactoryKernel::normalize(k);
        for (uint32_t i = 0; i < n; i++) if (std::abs((double)k.data[i] * s - (1 + (i * 5 % 7))) > 1e-4) c.fail("normalize", "weight %u of a normalised %dD kernel of width %u is %.9g, expected %.9g", i, dim, w, dv(k.data[i]), (1 + (i * 5 % 7)) / s);
    }
}
template<class E> static void refusals(mc::Ctx& c) {
    uint32_t w = c.choose(9, "width"), o = c.choose(11, "origin"); if (o == 10) o = 0xffffffffu; c.shard(); c.step(); c.state(mc::mix(w * 16 + (o & 15), sizeof(E) * 2 + isf<E>())); c.describe("width %u origin %u", w, o);
    bool bad = o >= w;
    bool t = throws([&] { Kernel1D<E> k(w, o); }); if (t != bad) c.fail("no-refusal", "Kernel1D(%u,%u) %s", w, o, t ? "was refused" : "was not refused");
    t = throws([&] { Kernel2D<E> k(w, o); }); if (t != bad) c.fail("no-refusal", "Kernel2D(%u,%u) %s", w, o, t ? "was refused" : "was not refused");
    if (w == 3) {
        t = throws([&] { Kernel1D<E> k(o, {(E)1, (E)2, (E)3}); }); if (t != bad) c.fail("no-refusal", "Kernel1D(%u,{3 weights}) %s", o, t ? "was refused" : "was not refused");
        t = throws([&] { Kernel2D<E> k(o, {{(E)1, (E)2, (E)3}, {(E)4, (E)5, (E)6}, {(E)7, (E)8, (E)9}}); }); if (t != bad) c.fail("no-refusal", "Kernel2D(%u,{3x3 weights}) %s", o, t ? "was refused" : "was not refused");
        if (!bad) { Kernel2D<E> k(o, {{(E)1, (E)2, (E)3}, {(E)4, (E)5, (E)6}, {(E)7, (E)8, (E)9}}); std::vector<E> v; for (int i = 1; i < 10; i++) v.push_back((E)i); verify(c, k, 3, o, v, 2); }
        c.ok(throws([&] { Kernel2D<E> k(0, {{(E)1, (E)2, (E)3}, {(E)4, (E)5}, {(E)7, (E)8, (E)9}}); }) && throws([&] { Kernel2D<E> k(0, {{(E)1, (E)2}, {(E)4, (E)5}, {(E)7, (E)8}}); }) && throws([&] { Kernel2D<E> k(0, {{(E)1, (E)2}, {(E)4, (E)5, (E)6}}); }), "no-refusal", "a ragged kernel table was not refused");
    }
    if (w == 4) { c.ok(throws([] { FactoryKernel::sigmaForRadius(0, 0); }) && throws([] { FactoryKernel::sigmaForRadius(-1, 0); }) && throws([] { FactoryKernel::radiusForSigma(0, 0); }) && throws([] { FactoryKernel::radiusForSigma(-0.5, 0); }), "no-refusal", "undefined sigma or radius was not refused"); }
    c.s->checks.fetch_add(4, std::memory_order_relaxed);
}
template<class E> static void all(mc::Ctx& c) {
    switch (c.choose(7, "family")) {
        case 0: histories<E, 1>(c, c.thorough ? 4 : 3); break;
        case 1: histories<E, 2>(c, c.thorough ? 4 : 3); break;
        case 2: statistics<E>(c); break;
        case 3: generators<E>(c); break;
        case 4: tables<E>(c); break;
        case 5: generator_pairs<E>(c); break;
        default: refusals<E>(c);
    }
}
void mc_body(mc::Ctx& c) {
    switch (c.choose(5, "type")) { case 0: all<U8>(c); break; case 1: all<S16>(c); break; case 2: all<S32>(c); break; case 3: all<F32>(c); break; default: all<F64>(c); }
}
