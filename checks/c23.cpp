// C23: statistics, fills and band averages cover exactly the pixels of the image or view.
#include "image_statistics.h"
#include "image_misc_ops.h"
#include "image_convert.h"
#include "border_ref.h"
#include <random>
using namespace boofcv;
const char* mc_property = "C23";
template<class E> struct TC { static const int v = sizeof(E) * 4 + std::is_floating_point<E>::value * 2 + std::is_signed<E>::value; };
template<class E> static void stats(mc::Ctx& c, const std::vector<E>& px, uint32_t w, uint32_t h, int l) {
    typedef typename TypeInfo<E>::sum_type S; bool f = std::is_floating_point<E>::value;
    Img<E> in(w, h, l, 3); in.set(px); double mn = (double)px[0], mx = mn, sum = 0, mag = 1e-3; for (auto p : px) { mn = std::min(mn, (double)p); mx = std::max(mx, (double)p); sum += (double)p; mag += std::abs((double)p); }
    double e = f ? mag * (sizeof(E) == 4 ? 1e-6 + 6e-8 * px.size() : 1e-13 + 1e-16 * px.size()) : 0; std::string s = show(px, w); const char* ln = layout_name[l];
    E a = ImageStatistics::min(in.g()), b = ImageStatistics::max(in.g()); S t = ImageStatistics::sum(in.g()); E m = ImageStatistics::mean(in.g()); double wm = f ? sum / px.size() : std::trunc(sum / px.size());
    c.s->checks.fetch_add(4); c.step(4); c.state(mc::mix(mc::hash_bytes(px.data(), px.size() * sizeof(E)), mc::mix(w * 64 + h, TC<E>::v * 8 + l)));
    if ((double)a != mn) c.fail("min", "min of %s (%s, %s) is %g, expected %g", s.c_str(), type_name<E>(), ln, dv(a), mn);
    if ((double)b != mx) c.fail("max", "max of %s (%s, %s) is %g, expected %g", s.c_str(), type_name<E>(), ln, dv(b), mx);
    if (!(std::abs((double)t - sum) <= e)) c.fail("sum", "sum of %s (%s, %s) is %.9g, expected %.9g", s.c_str(), type_name<E>(), ln, (double)t, sum);
    if (!(std::abs((double)m - wm) <= e)) c.fail("mean", "mean of %s (%s, %s) is %.9g, expected %.9g", s.c_str(), type_name<E>(), ln, dv(m), wm);
    if (mx - mn < 1000 || (mx - mn < 70000 && (mc::hash_bytes(px.data(), px.size() * sizeof(E)) % 8 == 0 || px.size() < 4))) for (int d = 0; d < 2; d++) {
        if (mn - d < (double)std::numeric_limits<E>::lowest()) continue; if (f && mn != std::floor(mn)) continue;
        uint32_t n = (uint32_t)(mx - mn) + 1 + d, extra = (px.size() + d) % 3; GrowArray<uint32_t> h1(n + extra); for (uint32_t i = 0; i < h1.size; i++) h1[i] = 0xABCD + i; std::vector<uint32_t> want(n + extra, 0); for (auto p : px) want[(size_t)((double)p - (mn - d))]++;
        ImageStatistics::histogram(in.g(), (E)(mn - d), h1); c.s->checks.fetch_add(n); c.step();
        if (h1.size != n + extra) c.fail("histogram", "the histogram's length changed"); for (uint32_t i = 0; i < h1.size; i++) if (h1[i] != want[i]) c.fail("histogram", "histogram of %s (%s, %s) from %g: bin %u is %u, expected %u", s.c_str(), type_name<E>(), ln, mn - d, i, h1[i], want[i]);
    }
    check_input(c, in, px, "input");
}
struct Rng {     // an environment: the first answers are chosen by the explorer
    typedef uint32_t result_type; std::vector<uint32_t> script; size_t used = 0; uint32_t s = 77;
    static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; }
    uint32_t operator()() { return used < script.size() ? script[used++] : (used++, s = s * 1664525u + 1013904223u); }
};
template<class E> static void run(mc::Ctx& c) {
    int fam = c.choose(7, "family"); typedef std::numeric_limits<E> L; bool f = std::is_floating_point<E>::value;
    if (fam == 6) {     // large shapes
        const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; uint32_t w = s.w, h = s.h; c.shard(); c.describe("statistics, fills and averages of %ux%u images of %s", w, h, type_name<E>()); int l = (int)((w + h) % LAYOUTS); uint32_t sd = w * 3 + h;
        std::vector<E> v(w * h); for (auto& p : v) p = (E)(20 + lcg(sd) % 200);
        for (int k = 0; k < 4; k++) { std::vector<E> u = v; E low = L::is_signed ? (E)-100 : (E)3, top = (E)240; size_t q = k == 0 ? 0 : k == 1 ? u.size() - 1 : k == 2 ? w - 1 : lcg(sd) % u.size(); u[q] = low; stats<E>(c, u, w, h, k & 1 ? l : 0); u[q] = top; stats<E>(c, u, w, h, k & 1 ? 0 : l); }
        for (int b = 0; b < 3; b++) { int ll = (l + b) % LAYOUTS; Img<E> im(w, h, ll, 3, b); if (b) ImageMiscOps::fill(im.i(), (E)77); else ImageMiscOps::fill(im.g(), (E)77); check_output(c, im, std::vector<E>(w * h * im.bands, (E)77), "fill"); c.step(); }
        for (uint32_t r : {1u, 3u, 40u}) { Img<E> im(w, h, l, 3); std::vector<E> u = v; im.set(u); ImageMiscOps::fill_border(im.g(), (E)200, r); for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) if (std::min(std::min(x, y), std::min(w - 1 - x, h - 1 - y)) < r) u[y * w + x] = (E)200; check_output(c, im, u, "fill_border"); c.step(); }
        for (uint32_t b = 1; b <= 3; b++) { Img<E> in(w, h, l, 3, b), out(w, h, (l + b) % LAYOUTS, 4); std::vector<E> u(w * h * b), want(w * h); for (auto& p : u) p = (E)(lcg(sd) % 250); in.set(u); for (uint32_t i = 0; i < w * h; i++) { double t = 0; for (uint32_t k = 0; k < b; k++) t += (double)u[i * b + k]; want[i] = f ? (E)(t / b) : (E)std::trunc(t / b); } convert_average(in.i(), out.g()); check_output(c, out, want, "convert_average", f ? 1e-3 : 0); check_input(c, in, u, "input"); c.step(); }
        std::mt19937 g(w); Img<E> im(w, h, l, 3); ImageMiscOps::fill_uniform(im.g(), (E)0, (E)100, g); check_stray(c, im, "random"); std::vector<E> u = im.get(), e2(w * h); size_t low = 0; for (auto p : u) { if (!((double)p >= 0 && (double)p <= 100)) c.fail("fill_uniform", "random value %g is not in 0..100", dv(p)); low += (double)p < 50; }
        if (u.size() >= 1000 && (low < u.size() / 4 || low > u.size() * 3 / 4)) c.fail("fill_uniform", "%zu of %zu random values are in the lower half of the range", low, u.size());
        c.state(mc::mix(w * 70000ull + h, TC<E>::v + 300)); return;
    }
    if (fam == 0) {     // statistics of every small image over an alphabet
        static const uint32_t sh[][2] = {{1, 1}, {2, 1}, {1, 3}, {2, 2}, {5, 1}, {3, 2}, {2, 3}}; int q = c.choose(c.thorough ? 7 : 6, "shape"); uint32_t w = sh[q][0], h = sh[q][1]; int kind = c.choose(2, "alphabet"), l = c.choose(LAYOUTS, "layout"); c.shard();
        std::vector<E> al; if (kind == 0) for (double v : {-3., 0., 2., 7.}) al.push_back(L::is_signed ? (E)v : (E)(v + 3)); else if (sizeof(E) >= 4 && !f) for (double v : {-1e8, -5., 0., 1e8}) al.push_back((E)v); else if (f) for (double v : {-1e6, -2.5, -0.25, 3.75}) al.push_back((E)v); else for (E v : {L::lowest(), (E)(L::lowest() + 1), (E)(L::max() - 1), L::max()}) al.push_back(v);
        c.describe("statistics of every %ux%u image over %s", w, h, show(al, 0).c_str()); std::vector<E> px(w * h); uint64_t n = 1; for (uint32_t i = 0; i < w * h; i++) n *= al.size();
        for (uint64_t k = 0; k < n; k++) { uint64_t z = k; for (auto& p : px) { p = al[z % al.size()]; z /= al.size(); } stats<E>(c, px, w, h, l); }
    } else if (fam == 1) {      // statistics with the extreme pixel at every place
        uint32_t n = c.thorough ? 10 : 6, w = 1 + c.choose(n, "width"), h = 1 + c.choose(n, "height"); int l = c.choose(LAYOUTS, "layout"); c.shard(); c.describe("statistics of %ux%u images, %s", w, h, layout_name[l]);
        std::vector<E> base = pixels<E>(w * h, 1, w + h * 9); stats<E>(c, base, w, h, l); if (L::is_signed) { for (auto& p : base) p = -std::abs(p) - 1; stats<E>(c, base, w, h, l); }
        for (uint32_t i = 0; i < w * h; i++) for (int k = 0; k < 2; k++) { std::vector<E> v(w * h, (E)50); v[i] = k ? (E)(L::is_signed ? -100 : 3) : (E)101; stats<E>(c, v, w, h, l); }
    } else if (fam == 2) {      // fill
        uint32_t n = c.thorough ? 12 : 8, w = c.choose(n, "width"), h = c.choose(n, "height"); int l = c.choose(LAYOUTS, "layout"), bands = c.choose(4, "bands"); c.shard(); c.describe("fill a %ux%u image of %s with %d bands, %s", w, h, type_name<E>(), bands, layout_name[l]);
        for (E v : {(E)0, (E)1, (E)77, L::max(), L::lowest(), (E)(f ? -2.75 : 200)}) { Img<E> im(w, h, l, 3, bands); if (bands) ImageMiscOps::fill(im.i(), v); else ImageMiscOps::fill(im.g(), v); check_output(c, im, std::vector<E>(w * h * im.bands, v), "fill"); c.step(); c.state(mc::mix(mc::hash_bytes(&v, sizeof v), mc::mix(w * 64 + h, (TC<E>::v * 8 + l) * 4 + bands))); }
        if (l == 0 && w && h) { if (bands) { Interleaved<E> a(w + 3, h + 4, bands); a.reshape(w, h, bands); ImageMiscOps::fill(a, (E)5); for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) for (int b = 0; b < bands; b++) c.ok(a.at(x, y, b) == 5, "fill", "a reshaped image was not filled"); } else { Gray<E> a(w + 3, h + 4); a.reshape(w, h); ImageMiscOps::fill(a, (E)5); for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) c.ok(a.at(x, y) == 5, "fill", "a reshaped image was not filled"); } }
    } else if (fam == 3) {      // border fill
        uint32_t n = c.thorough ? 14 : 9, w = 1 + c.choose(n, "width"), h = 1 + c.choose(n, "height"); int l = c.choose(LAYOUTS, "layout"); c.shard(); c.describe("fill the border of a %ux%u image of %s, every radius, %s", w, h, type_name<E>(), layout_name[l]);
        for (uint32_t r = 0; r <= std::max(w, h) + 2; r++) { Img<E> im(w, h, l, 3); std::vector<E> v = pixels<E>(w * h, 0, w * h); im.set(v); ImageMiscOps::fill_border(im.g(), (E)200, r); for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) if (std::min(std::min(x, y), std::min(w - 1 - x, h - 1 - y)) < r) v[y * w + x] = (E)200; check_output(c, im, v, "fill_border"); c.step(); c.state(mc::mix(mc::mix(w * 64 + h, r), TC<E>::v * 8 + l)); }
    } else if (fam == 4) {      // random fill: every answer of the generator from a boundary alphabet
        int l = c.choose(LAYOUTS, "layout"); uint32_t w = 1 + c.choose(3, "width"), h = 1 + c.choose(2, "height"); static const double rg[][2] = {{0, 1}, {0, 2}, {3, 10}, {100, 200}, {0, 255}, {-5, 5}, {-100, -99}, {-30000, 30000}}; const double* r = rg[c.choose(L::is_signed ? 8 : 5, "range")]; Rng g; static const uint32_t ans[] = {0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
        for (int i = 0; i < (c.thorough ? 6 : 4); i++) g.script.push_back(ans[c.choose(6, "random number")]); c.shard(); c.describe("random fill of a %ux%u image of %s in %g..%g, %s", w, h, type_name<E>(), r[0], r[1], layout_name[l]);
        Img<E> im(w, h, l, 3); ImageMiscOps::fill_uniform(im.g(), (E)r[0], (E)r[1], g); check_stray(c, im, "random"); std::vector<E> v = im.get(); c.step(); c.s->checks.fetch_add(v.size()); c.state(mc::mix(mc::hash_bytes(g.script.data(), g.script.size() * 4), mc::mix(w * 8 + h, TC<E>::v * 8 + l)));
        // a real distribution may round up to its upper limit
        for (auto p : v) if (!((double)p >= r[0] && (f ? (double)p <= r[1] : (double)p < r[1]))) c.fail("fill_uniform", "random value %g is not in %g..%g", dv(p), r[0], r[1]);
        if (g.used < v.size() && r[1] - r[0] > 1) c.fail("fill_uniform", "%zu random numbers were drawn for %zu pixels", g.used, v.size());
    } else {            // average of the bands
        int lin = c.choose(LAYOUTS, "layout"), lout = c.choose(LAYOUTS, "layout"); uint32_t n = c.thorough ? 9 : 6, w = c.choose(n, "width"), h = c.choose(n, "height"), bands = 1 + c.choose(4, "bands"); c.shard(); c.describe("average of %u bands of a %ux%u image of %s", bands, w, h, type_name<E>());
        for (int data = 0; data < 4; data++) { Img<E> in(w, h, lin, 3, bands); std::vector<E> v = pixels<E>(w * h * bands, data < 3 ? data : 1, w + data); if (data == 3 && L::is_signed) for (auto& p : v) p = -std::abs(p) - 1; in.set(v); Img<E> out(w, h, lout, 4); if (lout == 0 && w && h) out.gray.reset(new Gray<E>(h + 2, w)); std::vector<E> want(w * h); double mag = 1;
            for (uint32_t i = 0; i < w * h; i++) { double s = 0; for (uint32_t b = 0; b < bands; b++) { s += (double)v[i * bands + b]; mag = std::max(mag, std::abs((double)v[i * bands + b])); } want[i] = f ? (E)(s / bands) : (E)std::trunc(s / bands); }
            convert_average(in.i(), out.g()); check_output(c, out, want, "convert_average", f ? mag * (sizeof(E) == 4 ? 1e-6 : 1e-13) : 0); check_input(c, in, v, "input"); c.step(); c.state(mc::mix(mc::mix(w * 64 + h, bands * 4 + data), TC<E>::v * 32 + lin * 5 + lout)); }
    }
}
void mc_body(mc::Ctx& c) { switch (c.choose(6, "type")) { case 0: run<U8>(c); break; case 1: run<S16>(c); break; case 2: run<U16>(c); break; case 3: run<S32>(c); break; case 4: run<F32>(c); break; default: run<F64>(c); } }
