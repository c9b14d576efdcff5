// C40: what is printed about images, kernels and differences, character by character, for all small images over boundary
// alphabets, every place of a differing pixel in every small shape and layout, and kernels of every small width.
#include "util.h"
#include "print_structures.h"
#include <sys/syscall.h>
#include <iostream>
using namespace boofcv;
const char* mc_property = "C40";
// everything the call writes to the standard output
template<class F> static std::string printed(F f) {
    static int fd = -1; static pid_t owner = 0;
    if (owner != getpid()) { fd = (int)syscall(SYS_memfd_create, "printed", 0); owner = getpid(); }
    fflush(stdout); std::cout.flush(); int keep = dup(1); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); dup2(fd, 1);
    struct Back { int keep; ~Back() { fflush(stdout); std::cout.flush(); dup2(keep, 1); close(keep); } };
    { Back b{keep}; f(); }
    std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); return r;
}
static void same(mc::Ctx& c, const std::string& got, const std::string& want, const char* what) {
    c.s->checks.fetch_add(want.size() + 1); c.step(); c.state(mc::hash_bytes(want.data(), want.size()));
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; c.fail("text", "%s: the text differs at character %zu: '%.60s' instead of '%.60s'", what, i, got.c_str() + (i > 20 ? i - 20 : 0), want.c_str() + (i > 20 ? i - 20 : 0)); }
}
static std::string text(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string text(const char* f, ...) { char b[100]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
template<class E> static std::string number(E v, bool hex) { return std::is_floating_point<E>::value ? text("%.4e", (double)v) : hex ? text("%02x", (unsigned)(int)v) : text("%d", (int)v); }
template<class E> static std::vector<E> alphabet() {
    typedef std::numeric_limits<E> L; if (std::is_floating_point<E>::value) return {(E)0, (E)1, (E)-2.5, (E)0.00012345, (E)9.99999e7, (E)-1e-9};
    std::vector<E> v{0, 1, 9, 10, 15, 16, 100, L::max()}; if (L::is_signed) { v.push_back(-1); v.push_back(L::lowest()); } return v;
}
template<class E> static void image(mc::Ctx& c, uint32_t w, uint32_t h, int layout, const std::vector<E>& px) {
    Img<E> im(w, h, layout, 3); im.set(px); std::string t = text("print of a %ux%u image of type %s (%s)", w, h, type_name<E>(), layout_name[layout]); c.describe("%s %s", t.c_str(), show(px, w).c_str());
    std::string want = text("image %u x %u\n", w, h); for (uint32_t y = 0; y < h; y++) { want += "[ "; for (uint32_t x = 0; x < w; x++) want += number(px[y * w + x], true) + " "; want += "]\n"; } want += "\n";
    same(c, printed([&] { print(im.g()); }), want, t.c_str()); check_input(c, im, px, "printed");
}
template<class E> static void images(mc::Ctx& c) {
    std::vector<E> al = alphabet<E>();
    if (c.flag("shapes")) {
        uint32_t n = c.thorough ? 9 : 7, w = c.choose(n, "width"), h = c.choose(n, "height"); int l = c.choose(LAYOUTS, "layout"); c.shard();
        std::vector<E> px(w * h); for (size_t i = 0; i < px.size(); i++) px[i] = (E)((i * 37 + i / 5) % 120); image<E>(c, w, h, l, px); return;
    }
    uint32_t n = 1 + c.choose(c.thorough ? 4 : 3, "pixels"); bool col = c.flag("column"); std::vector<E> px; for (uint32_t i = 0; i < n; i++) { px.push_back(al[c.choose((uint32_t)al.size(), "value")]); if (i == 0) c.shard(); } image<E>(c, col ? 1 : n, col ? n : 1, 2, px);
}
template<class E> static void difference(mc::Ctx& c) {
    bool fl = std::is_floating_point<E>::value; uint32_t n = c.thorough ? 7 : 5, w = c.choose(n, "width"), h = c.choose(n, "height"); c.shard(); int l = c.choose(LAYOUTS, "layout"), m = c.choose(LAYOUTS, "other layout");
    std::vector<double> tols = fl ? std::vector<double>{-1, 0, 0.5, 3} : std::vector<double>{-1, 0, 1, 3}; double tol = tols[c.choose(4, "tolerance")]; int64_t place = (int64_t)c.choose(w * h + 2, "place") - 1;      // -1 none, w*h all
    std::vector<double> ds = fl ? std::vector<double>{1e-5, 0.4, 0.6, 2.9, 3.1, -0.6, -50} : std::vector<double>{1, 2, 3, 4, -1, -4, 100}; double d = ds[c.choose(7, "difference")]; if (place < 0 && d != ds[0]) return;
    Img<E> a(w, h, l, 1), b(w, h, m, 2); std::vector<E> pa(w * h), pb; for (size_t i = 0; i < pa.size(); i++) pa[i] = (E)(100 + (i * 7) % 25); pb = pa; for (int64_t i = 0; i < (int64_t)pb.size(); i++) if (i == place || place == (int64_t)pb.size()) pb[i] = (E)(pb[i] + d); a.set(pa); b.set(pb);
    double t = tol >= 0 ? tol : fl ? sqrt((double)std::numeric_limits<E>::epsilon()) : 0; std::string want; for (uint32_t y = 0; y < h; y++) { for (uint32_t x = 0; x < w; x++) want += std::abs((double)pa[y * w + x] - (double)pb[y * w + x]) > t ? 'X' : '-'; want += '\n'; }
    std::string what = text("differences of %ux%u images of type %s, tolerance %g, pixel %lld differs by %g", w, h, type_name<E>(), tol, (long long)place, d); c.describe("%s", what.c_str());
    same(c, printed([&] { if (tol < 0) print_difference(a.g(), b.g()); else print_difference(a.g(), b.g(), (E)tol); }), want, what.c_str()); check_input(c, a, pa, "first"); check_input(c, b, pb, "second");
    if (place < 0 && w && h) { Img<E> o(w + 1, h, 0, 3), p(w, h - 1, 0, 4); std::string q = printed([&] { c.ok(throws([&] { print_difference(a.g(), o.g()); }), "refusal", "images of different widths are compared"); c.ok(throws([&] { print_difference(p.g(), a.g()); }), "refusal", "images of different heights are compared"); }); same(c, q, "", "refused comparison"); }
}
template<class E> static void kernels(mc::Ctx& c) {
    std::vector<E> al = alphabet<E>(); bool two = c.flag("2-d"); uint32_t w = 1 + c.choose(two ? 5 : 9, "width"), o = c.choose(w, "origin"), first = c.choose((uint32_t)al.size(), "weights"); c.shard(); std::string want;
    if (!two) { Kernel1D<E> k(w, o); want = "Kernel1D["; for (uint32_t i = 0; i < w; i++) { k[i] = al[(first + i * 3) % al.size()]; want += " " + number(k[i], false); } want += " ]\n"; same(c, printed([&] { print_kernel(k); }), want, "1-d kernel"); return; }
    Kernel2D<E> k(w, o); want = text("Kernel2D{ offset=%u, width=%u }\n", o, w); for (uint32_t y = 0; y < w; y++) { want += " "; for (uint32_t x = 0; x < w; x++) { k.at(x, y) = al[(first + y * w * 5 + x * 3 + y) % al.size()]; want += " " + number(k.at(x, y), false); } want += "\n"; }
    same(c, printed([&] { print_kernel(k); }), want, "2-d kernel");
}
void mc_body(mc::Ctx& c) {
    switch (c.choose(14, "part")) {
        case 0: images<U8>(c); break; case 1: images<U16>(c); break; case 2: images<S16>(c); break; case 3: images<S32>(c); break; case 4: images<F32>(c); break; case 5: images<F64>(c); break;
        case 6: difference<U8>(c); break; case 7: difference<S16>(c); break; case 8: difference<S32>(c); break; case 9: difference<F32>(c); break; case 10: difference<F64>(c); break;
        case 11: kernels<S16>(c); break; case 12: kernels<S32>(c); break; default: c.flag("double") ? kernels<F64>(c) : kernels<F32>(c);
    }
}
