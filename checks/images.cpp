// C07 gray images, C08 multi-band images: every history of operations on a pool of images and views, against plain
// arrays.  The model knows who owns which memory; views of memory that is released or reshaped leave the pool.
#include "util.h"
using namespace boofcv;
#ifndef PROP
#define PROP 7
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
const char* mc_property = "C0" STR(PROP);

template<class E> static E val(uint32_t k) { return sizeof(E) == 1 ? (E)(k % 250 + 1) : sizeof(E) == 2 ? (E)(k % 30000 * 2 - 20000) : std::is_floating_point<E>::value ? (E)(k * 1.25 - 40) : (E)(k * 70001u); }

template<class E> struct GrayOps {
    typedef E elem; typedef Gray<E> image; static constexpr bool multi = false;
    static image* make(uint32_t w, uint32_t h, uint32_t) { return new image(w, h); }
    static image* wrap(E* d, uint32_t n, uint32_t w, uint32_t h, uint32_t, uint32_t o, uint32_t s) { return new image(d, n, w, h, o, s); }
    static E& at(image& m, uint32_t x, uint32_t y, uint32_t) { return m.at(x, y); }
    static E& fast(image& m, uint32_t x, uint32_t y, uint32_t) { return m.unsafe_at(x, y); }
    static uint32_t index(image& m, uint32_t x, uint32_t y, uint32_t) { return m.index_of(x, y); }
    static void reshape(image& m, uint32_t w, uint32_t h, uint32_t, int) { m.reshape(w, h); }
    static void copy(image& d, image& s) { d.copy(s); }
    static uint32_t bands(image&) { return 1; }
};
template<class E> struct InterOps {
    typedef E elem; typedef Interleaved<E> image; static constexpr bool multi = true;
    static image* make(uint32_t w, uint32_t h, uint32_t b) { return new image(w, h, b); }
    static image* wrap(E* d, uint32_t n, uint32_t w, uint32_t h, uint32_t b, uint32_t o, uint32_t s) { return new image(d, n, w, h, b, o, s); }
    static E& at(image& m, uint32_t x, uint32_t y, uint32_t b) { return m.at(x, y, b); }
    static E& fast(image& m, uint32_t x, uint32_t y, uint32_t b) { return m.unsafe_at(x, y, b); }
    static uint32_t index(image& m, uint32_t x, uint32_t y, uint32_t b) { return m.index_of(x, y, b); }
    static void reshape(image& m, uint32_t w, uint32_t h, uint32_t b, int how) { if (how == 0) m.reshape(w, h); else if (how == 1) m.reshape(w, h, b); else m.setNumberOfBands(b); }
    static void copy(image& d, image& s) { d.setTo(s); }
    static uint32_t bands(image& m) { return m.num_bands; }
};

template<class O> struct Pool {
    typedef typename O::elem E; typedef typename O::image IM;
    struct Buf { std::vector<E> v; };
    struct Obj { IM* im = nullptr; std::shared_ptr<Buf> b; uint32_t off = 0, stride = 0, w = 0, h = 0, n = 1; bool view = false; };
    mc::Ctx& c; Obj o[3]; uint32_t k = 1; std::vector<E> ext; std::shared_ptr<Buf> extb;
    explicit Pool(mc::Ctx& c) : c(c) { ext.resize(40); for (int i = 0; i < 40; i++) ext[i] = val<E>(1000 + i); extb.reset(new Buf{ext}); }
    ~Pool() { for (auto& x : o) delete x.im; }

    bool same_shape(const Obj& a, const Obj& b) { return a.w == b.w && a.h == b.h && a.n == b.n; }
    E& model(Obj& x, uint32_t X, uint32_t Y, uint32_t B) { return x.b->v[x.off + Y * x.stride + X * x.n + B]; }
    void drop(int i) { delete o[i].im; o[i] = Obj(); }
    void kill_views(const std::shared_ptr<Buf>& b) { if (b) for (int i = 0; i < 3; i++) if (o[i].im && o[i].view && o[i].b == b) drop(i); }
    void destroy(int i) { if (!o[i].im) return; if (!o[i].view) kill_views(o[i].b); drop(i); }
    void own(int i, uint32_t w, uint32_t h, uint32_t n) { Obj& x = o[i]; x.b.reset(new Buf); x.b->v.assign(w * h * n, 0); x.off = 0; x.stride = w * n; x.w = w; x.h = h; x.n = n; x.view = false; }
    void paint(int i) { Obj& x = o[i]; for (uint32_t y = 0; y < x.h; y++) for (uint32_t X = 0; X < x.w; X++) for (uint32_t b = 0; b < x.n; b++) { E v = val<E>(k++); model(x, X, y, b) = v; O::fast(*x.im, X, y, b) = v; } }
    void create(int i, uint32_t w, uint32_t h, uint32_t n, bool fill) { destroy(i); o[i].im = O::make(w, h, n); own(i, w, h, n); if (fill) paint(i); }

    void verify() {
        for (int i = 0; i < 3; i++) if (o[i].im) {
            Obj& x = o[i]; IM& m = *x.im;
            if (m.width != x.w || m.height != x.h || m.getWidth() != x.w || m.getHeight() != x.h || m.total_pixels() != x.w * x.h || O::bands(m) != x.n)
                c.fail("shape", "image %d is %ux%ux%u (getWidth %u, getHeight %u, total_pixels %u), expected %ux%ux%u", i, m.width, m.height, O::bands(m), m.getWidth(), m.getHeight(), m.total_pixels(), x.w, x.h, x.n);
            if (m.subimage != x.view) c.fail("view-flag", "image %d says subimage=%d", i, m.subimage);
            for (uint32_t y = 0; y < x.h + 2; y++) for (uint32_t X = 0; X < x.w + 2; X++) if (m.isInBounds(X, y) != (X < x.w && y < x.h)) c.fail("bounds", "isInBounds(%u,%u) of a %ux%u image is %d", X, y, x.w, x.h, m.isInBounds(X, y));
            if (x.w && x.h && m.data_length <= O::index(m, x.w - 1, x.h - 1, x.n - 1)) c.fail("length", "image %d (%ux%ux%u) says that its array has %u elements, the last pixel is at %u", i, x.w, x.h, x.n, m.data_length, O::index(m, x.w - 1, x.h - 1, x.n - 1));
            if (m.isInBounds(0xffffffffu, 0) || m.isInBounds(0, 0xffffffffu)) c.fail("bounds", "isInBounds(-1) of a %ux%u image is true", x.w, x.h);
            for (uint32_t y = 0; y < x.h; y++) for (uint32_t X = 0; X < x.w; X++) for (uint32_t b = 0; b < x.n; b++) {
                E want = model(x, X, y, b), got = O::fast(m, X, y, b);
                if (!(got == want)) c.fail("pixel", "pixel (%u,%u,%u) of image %d (%ux%u%s) is %g, expected %g", X, y, b, i, x.w, x.h, x.view ? " view" : "", dv(got), dv(want));
                if (&O::at(m, X, y, b) != &O::fast(m, X, y, b) || &m.data[O::index(m, X, y, b)] != &O::fast(m, X, y, b)) c.fail("address", "at, unsafe_at and index_of disagree about (%u,%u,%u) of image %d", X, y, b, i);
            }
            c.s->checks.fetch_add(x.w * x.h * x.n + 5, std::memory_order_relaxed);
        }
        for (int i = 0; i < 40; i++) if (!(ext[i] == extb->v[i])) c.fail("pixel", "wrapped memory at %d is %g, expected %g", i, dv(ext[i]), dv(extb->v[i]));
    }
    void must_throw(bool t, const char* what) { if (!t) c.fail("no-refusal", "%s was not refused", what); }

    struct Sh { uint32_t w, h, n; };
    const std::vector<Sh>& shapes() {
        static const std::vector<Sh> g = {{0, 0, 1}, {1, 1, 1}, {2, 3, 1}, {3, 2, 1}, {4, 3, 1}}, m = {{0, 0, 2}, {1, 2, 3}, {2, 3, 2}, {3, 2, 2}, {2, 2, 3}, {3, 3, 1}};
        return O::multi ? m : g;
    }
    void copy_into(int i, int j, bool assign) {      // i := pixels of j
        Obj& a = o[i]; Obj& b = o[j];
        if (a.view && !same_shape(a, b)) {
            must_throw(throws([&] { if (assign) *a.im = *b.im; else O::copy(*a.im, *b.im); }), "copying an image of another shape into a view"); return;
        }
        if (!a.view && !same_shape(a, b)) { kill_views(a.b); if (!o[j].im) return; own(i, b.w, b.h, b.n); }
        if (assign) *a.im = *b.im; else O::copy(*a.im, *b.im);
        for (uint32_t y = 0; y < b.h; y++) for (uint32_t x = 0; x < b.w; x++) for (uint32_t n = 0; n < b.n; n++) model(a, x, y, n) = model(b, x, y, n);
    }
    bool op() {
        int i = c.choose(3, "image"); Obj& a = o[i]; int j;
        switch (c.choose(11, "op")) {
            case 0: { const Sh& s = c.pick(shapes(), "shape"); c.describe("i%d = new %ux%ux%u", i, s.w, s.h, s.n); create(i, s.w, s.h, s.n, false); break; }
            case 1: { // wrap the caller's memory
                int q = c.choose(2, "rect"); destroy(i); uint32_t n = O::multi ? 2 : 1, w = q ? 3 : 2, h = q ? 2 : 3, off = q ? 5 : 1, st = q ? 9 : 7;
                c.describe("i%d wraps %ux%u of external memory", i, w, h);
                o[i].im = O::wrap(ext.data(), 40, w, h, n, off, st); Obj& x = o[i]; x.b = extb; x.off = off; x.stride = st; x.w = w; x.h = h; x.n = n; x.view = true; break; }
            case 2: { if (!a.im) return false; const Sh& s = c.pick(shapes(), "shape"); int how = O::multi ? c.choose(3, "how") : 0;
                uint32_t w = how == 2 ? a.w : s.w, h = how == 2 ? a.h : s.h, n = how == 0 ? a.n : s.n;
                c.describe("i%d.reshape(%u,%u,%u)", i, w, h, n);
                if (w == a.w && h == a.h && n == a.n) { O::reshape(*a.im, w, h, n, how); break; }
                if (a.view) { must_throw(throws([&] { O::reshape(*a.im, w, h, n, how); }), "reshaping a view to another shape"); break; }
                kill_views(a.b); O::reshape(*a.im, w, h, n, how); own(i, w, h, n); paint(i); break; }
            case 3: { if (!a.im) return false; j = (i + 1 + c.choose(2, "to")) % 3;
                uint32_t x0 = 0, y0 = 0, x1 = a.w, y1 = a.h;
                switch (c.choose(5, "rect")) { case 0: break; case 1: if (!x1) return false; x0 = 1; break; case 2: if (!y1) return false; y0 = 1; break; case 3: if (x1 < 2 || !y1) return false; x1--; y0 = y1 - 1; x0 = x1 - 1; break; default: x0 = x1; y1 = 0; y0 = 0; }
                if (!a.view && o[j].im && o[j].b == a.b) {}    // an older view of the same image is replaced
                if (o[j].im && !o[j].view && a.b == o[j].b) return false;   // would release the memory the view refers to
                c.describe("i%d = i%d.makeSubimage(%u,%u,%u,%u)", j, i, x0, y0, x1, y1);
                destroy(j); o[j].im = new IM(a.im->makeSubimage(x0, y0, x1, y1)); Obj& v = o[j];
                v.b = a.b; v.off = a.off + y0 * a.stride + x0 * a.n; v.stride = a.stride; v.w = x1 - x0; v.h = y1 - y0; v.n = a.n; v.view = true; break; }
            case 4: { if (!a.im) return false; j = (i + c.choose(3, "from")) % 3; if (!o[j].im) return false;      // assignment (self included)
                c.describe("i%d = i%d", i, j);
                if (i == j) { *a.im = *&*a.im; break; }
                Obj& b = o[j];
                if (!b.view) { if (a.b == b.b) return false; copy_into(i, j, true); break; }
                if (!a.view && a.b == b.b) {        // crop to an own sub-image
                    std::vector<E> px; for (uint32_t y = 0; y < b.h; y++) for (uint32_t x = 0; x < b.w * b.n; x++) px.push_back(b.b->v[b.off + y * b.stride + x]);
                    uint32_t w = b.w, h = b.h, n = b.n;
                    *a.im = *b.im; kill_views(a.b); own(i, w, h, n); a.b->v = px; break;
                }
                *a.im = *b.im; if (!a.view) kill_views(a.b);
                a.b = b.b; a.off = b.off; a.stride = b.stride; a.w = b.w; a.h = b.h; a.n = b.n; a.view = true; break; }
            case 5: { if (!a.im) return false; j = (i + 1 + c.choose(2, "from")) % 3; if (!o[j].im || o[j].b == a.b) return false;
                c.describe("copy i%d into i%d", j, i); copy_into(i, j, false); break; }
            case 6: { j = (i + 1 + c.choose(2, "from")) % 3; if (!o[j].im) return false; if (a.im && !a.view && o[j].b == a.b) return false;
                c.describe("i%d is a copy of i%d", i, j); destroy(i); o[i].im = new IM(*o[j].im);
                Obj& b = o[j]; Obj& x = o[i];
                if (b.view) { x.b = b.b; x.off = b.off; x.stride = b.stride; x.w = b.w; x.h = b.h; x.n = b.n; x.view = true; }
                else { own(i, b.w, b.h, b.n); x.b->v = b.b->v; }
                break; }
            case 7: { if (!a.im || !a.w || !a.h) return false; bool end = c.flag("end"); uint32_t x = end ? a.w - 1 : 0, y = end ? a.h - 1 : a.h / 2, b = end ? a.n - 1 : 0; E v = val<E>(k++);
                c.describe("i%d.at(%u,%u,%u)=%g", i, x, y, b, dv(v)); if (end) O::at(*a.im, x, y, b) = v; else O::fast(*a.im, x, y, b) = v; model(a, x, y, b) = v; break; }
            case 8: if (!a.im) return false; c.describe("destroy i%d", i); destroy(i); break;
            case 9: if (!a.im) return false; c.describe("illegal access to i%d", i);
                must_throw(throws([&] { O::at(*a.im, a.w, 0, 0); }), "at(width,0)"); must_throw(throws([&] { O::at(*a.im, 0, a.h, 0); }), "at(0,height)"); must_throw(throws([&] { O::at(*a.im, 0xffffffffu, 0, 0); }), "at(-1,0)");
                must_throw(throws([&] { O::at(*a.im, 0, 0xffffffffu, 0); }), "at(0,-1)"); if (O::multi) must_throw(throws([&] { O::at(*a.im, 0, 0, a.n); }), "at(0,0,bands)");
                break;
            default: if (!a.im) return false; c.describe("illegal sub-images of i%d", i);
                must_throw(throws([&] { a.im->makeSubimage(0, 0, a.w + 1, a.h); }), "a sub-image wider than its parent"); must_throw(throws([&] { a.im->makeSubimage(0, 0, a.w, a.h + 1); }), "a sub-image taller than its parent");
                if (a.w) must_throw(throws([&] { a.im->makeSubimage(a.w, 0, a.w - 1, a.h); }), "a sub-image of negative width"); if (a.h) must_throw(throws([&] { a.im->makeSubimage(0, a.h, a.w, a.h - 1); }), "a sub-image of negative height");
                break;
        }
        return true;
    }
    uint64_t print() {
        uint64_t h = 5;
        for (auto& x : o) { h = mc::mix(h, x.im ? x.w * 64 + x.h * 8 + x.n + (x.view ? 4096 : 0) + (x.off << 16) + ((uint64_t)x.stride << 24) + ((uint64_t)x.im->data_length << 32) : 3); for (int q = 0; q < 3; q++) h = mc::mix(h, o[q].im && o[q].b == x.b); if (x.im) { h = mc::mix(h, x.b == extb); h = mc::mix(h, mc::hash_bytes(x.b->v.data(), x.b->v.size() * sizeof(E))); } }
        return h;
    }
};

template<class O> static void history(mc::Ctx& c, int depth) {
    Pool<O> p(c); uint32_t n = O::multi ? 2 : 1;
    int start = c.choose(3, "start");
    if (start == 1) { p.create(0, 3, 3, n, true); p.create(1, 2, 3, n, true); }
    if (start == 2) { // an owner, a view of it, and an image with spare capacity
        p.create(0, 4, 3, n, true); auto& a = p.o[0]; auto& v = p.o[1];
        v.im = new typename O::image(a.im->makeSubimage(1, 1, 3, 3)); v.b = a.b; v.off = a.stride + a.n; v.stride = a.stride; v.w = v.h = 2; v.n = n; v.view = true;
        p.create(2, 4, 4, n, true); O::reshape(*p.o[2].im, 2, 3, n, 0); p.own(2, 2, 3, n); p.paint(2);
    }
    c.describe("start %d", start);
    for (int d = 0; d < depth; d++) {
        bool ok = p.op();
        if (d == 0) c.shard();
        if (!ok) return;
        c.step();
        if (d == depth - 1 || c.verbose) p.verify();
    }
    c.state(mc::mix(p.print(), sizeof(typename O::elem)));
}

template<class E> static void odd_gray(mc::Ctx& c) {    // construction from a table, ragged tables
    c.shard();
    Gray<E> a{{(E)1, (E)2, (E)3}, {(E)4, (E)5, val<E>(9)}};
    bool good = a.width == 3 && a.height == 2 && !a.subimage && a.at(0, 0) == (E)1 && a.at(2, 0) == (E)3 && a.at(0, 1) == (E)4 && a.at(2, 1) == val<E>(9);
    c.ok(good, "table", "an image constructed from a table does not hold the table");
    c.ok(throws([&] { Gray<E> r{{(E)1, (E)2}, {(E)3}}; }), "no-refusal", "a ragged table (second row short) was not refused");
    c.ok(throws([&] { Gray<E> r{{(E)1}, {(E)3, (E)4}}; }), "no-refusal", "a ragged table (second row long) was not refused");
    Gray<E> e(std::initializer_list<std::initializer_list<E>>{}); c.ok(e.width == 0 && e.height == 0, "table", "an image from an empty table is not empty");
    Gray<E> one{{(E)7}}; one = a; one.at(1, 1) = (E)8; c.ok(one.width == 3 && one.height == 2 && one.at(1, 1) == (E)8 && a.at(1, 1) == (E)5 && one.at(2, 1) == val<E>(9), "table", "assignment from a table image is wrong");
    c.step(); c.state(sizeof(E) + 1000);
}

template<class E> struct PlanarPool {
    typedef Planar<Gray<E>> IM; struct M { uint32_t w = 0, h = 0; std::vector<std::vector<E>> b; };
    mc::Ctx& c; std::unique_ptr<IM> p[2]; M m[2]; uint32_t k = 1;
    explicit PlanarPool(mc::Ctx& c) : c(c) {}
    void fresh(int i, uint32_t w, uint32_t h, uint32_t n) { m[i].w = w; m[i].h = h; m[i].b.assign(n, std::vector<E>(w * h, 0)); }
    void paint(int i, uint32_t from = 0) { for (uint32_t b = from; b < m[i].b.size(); b++) for (uint32_t q = 0; q < m[i].w * m[i].h; q++) { E v = val<E>(k++); m[i].b[b][q] = v; p[i]->at(q % m[i].w, q / m[i].w, b) = v; } }
    void verify() {
        for (int i = 0; i < 2; i++) {
            IM& a = *p[i]; M& x = m[i];
            if (a.width != x.w || a.height != x.h || a.getWidth() != x.w || a.getHeight() != x.h || a.num_bands != x.b.size()) c.fail("shape", "planar image %d is %ux%u with %u bands, expected %ux%u with %zu", i, a.width, a.height, a.num_bands, x.w, x.h, x.b.size());
            if (a.offset != 0 || a.stride != x.w || a.subimage) c.fail("header", "planar image %d that owns its bands says offset %u, stride %u, sub-image %d", i, a.offset, a.stride, a.subimage);
            for (uint32_t b = 0; b < x.b.size(); b++) {
                Gray<E>& g = a.getBand(b);
                if (g.width != x.w || g.height != x.h) c.fail("shape", "band %u of planar image %d is %ux%u, expected %ux%u", b, i, g.width, g.height, x.w, x.h);
                for (uint32_t q = 0; q < x.b[b].size(); q++) {
                    E& v = a.at(q % x.w, q / x.w, b);
                    if (!(v == x.b[b][q])) c.fail("pixel", "pixel (%u,%u) of band %u of planar image %d is %g, expected %g", q % x.w, q / x.w, b, i, dv(v), dv(x.b[b][q]));
                    if (&v != &g.at(q % x.w, q / x.w)) c.fail("address", "at and getBand disagree about band %u", b);
                }
                c.s->checks.fetch_add(x.b[b].size() + 2, std::memory_order_relaxed);
            }
        }
    }
    void op() {
        struct Sh { uint32_t w, h, n; }; static const std::vector<Sh> sh = {{0, 0, 0}, {1, 2, 1}, {3, 2, 2}, {2, 3, 3}};
        int i = c.choose(2, "image");
        switch (c.choose(9, "op")) {
            case 0: { Sh s = c.pick(sh, "shape"); c.describe("p%d = new %ux%ux%u", i, s.w, s.h, s.n); p[i].reset(new IM(s.w, s.h, s.n)); fresh(i, s.w, s.h, s.n); break; }
            case 1: { Sh s = c.pick(sh, "shape"); c.describe("p%d.reshape(%u,%u)", i, s.w, s.h); p[i]->reshape(s.w, s.h); if (s.w != m[i].w || s.h != m[i].h) { fresh(i, s.w, s.h, (uint32_t)m[i].b.size()); paint(i); } break; }
            case 2: { uint32_t n = c.choose(4, "bands"), was = (uint32_t)m[i].b.size(); c.describe("p%d.setNumberOfBands(%u)", i, n); p[i]->setNumberOfBands(n); m[i].b.resize(n, std::vector<E>(m[i].w * m[i].h, 0)); if (n > was) paint(i, was); break; }
            case 3: c.describe("p%d.setTo(p%d)", i, 1 - i); p[i]->setTo(*p[1 - i]); m[i] = m[1 - i]; break;
            case 4: c.describe("p%d = p%d", i, 1 - i); *p[i] = *p[1 - i]; m[i] = m[1 - i]; break;
            case 5: { c.describe("p%d is a copy of p%d", i, 1 - i); std::unique_ptr<IM> t(new IM(*p[1 - i])); p[i] = std::move(t); m[i] = m[1 - i]; break; }
            case 6: { if (m[i].b.empty() || !m[i].w) return; bool last = c.flag("last"); uint32_t b = last ? (uint32_t)m[i].b.size() - 1 : 0, x = last ? m[i].w - 1 : 0, y = last ? m[i].h - 1 : 0; E v = val<E>(k++); c.describe("p%d.at(%u,%u,%u)=%g", i, x, y, b, dv(v));
                if (last) p[i]->at(x, y, b) = v; else p[i]->getBand(b).at(x, y) = v; m[i].b[b][y * m[i].w + x] = v; break; }
            case 7: { c.describe("p%d = p%d", i, i); *p[i] = *&*p[i]; break; }
            default: { c.describe("illegal access to p%d", i); uint32_t n = (uint32_t)m[i].b.size();
                auto need = [&](bool t, const char* w) { if (!t) c.fail("no-refusal", "%s was not refused", w); };
                need(throws([&] { p[i]->getBand(n); }), "getBand(bands)"); need(throws([&] { p[i]->at(0, 0, n); }), "at(0,0,bands)"); need(throws([&] { p[i]->getBand(0xffffffffu); }), "getBand(-1)");
                if (n) { need(throws([&] { p[i]->at(m[i].w, 0, 0); }), "at(width,0,0)"); need(throws([&] { p[i]->at(0, m[i].h, n - 1); }), "at(0,height,last)"); } }
        }
    }
};
template<class E> static void planar(mc::Ctx& c, int depth) {
    PlanarPool<E> p(c); int start = c.choose(2, "start");
    p.p[0].reset(start ? new typename PlanarPool<E>::IM(3, 2, 2) : new typename PlanarPool<E>::IM()); p.fresh(0, start ? 3 : 0, start ? 2 : 0, start ? 2 : 0); if (start) p.paint(0);
    p.p[1].reset(new typename PlanarPool<E>::IM(2, 1, 3)); p.fresh(1, 2, 1, 3); p.paint(1); p.verify();
    uint64_t h = 9;
    for (int d = 0; d < depth; d++) {
        p.op(); if (d == 1) c.shard();
        c.step(); if (d == depth - 1 || c.verbose) p.verify();
    }
    for (auto& m : p.m) { h = mc::mix(h, m.w * 8 + m.h); for (auto& b : m.b) h = mc::mix(h, mc::hash_bytes(b.data(), b.size() * sizeof(E))); }
    c.state(h);
}

// large shapes: copies between every pair of layouts, views of views, addresses, reshaping up and down
template<class E> static std::vector<E> noise_of(uint32_t n, uint32_t s) { std::vector<E> v(n); for (auto& p : v) p = val<E>(lcg(s) % 60000); return v; }
template<class O> static void large(mc::Ctx& c) {
    typedef typename O::elem E; typedef typename O::image IM; const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; uint32_t w = s.w, h = s.h, n = O::multi ? c.pick({1u, 2u, 3u, 4u, 5u, 8u, 17u}, "bands") : 0, nb = n ? n : 1; if ((uint64_t)w * h * nb > (c.thorough ? 3000000u : 200000u)) return; c.shard(); c.describe("%ux%u image of %s with %u bands", w, h, type_name<E>(), nb);
    std::vector<E> px = noise_of<E>(w * h * nb, w + h); bool huge = (uint64_t)w * h * nb > 20000;
    auto im = [](Img<E>& i) -> IM& { return *(IM*)(O::multi ? (void*)i.inter.get() : (void*)i.gray.get()); };
    auto same = [&](IM& m, const std::vector<E>& want, uint32_t W, uint32_t H, const char* what) {
        if (m.width != W || m.height != H || O::bands(m) != nb || m.total_pixels() != W * H) c.fail("shape", "%s is %ux%ux%u, expected %ux%ux%u", what, m.width, m.height, O::bands(m), W, H, nb);
        for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++) for (uint32_t b = 0; b < nb; b++) { E got = O::fast(m, x, y, b); if (!(got == want[(y * W + x) * nb + b])) c.fail("pixel", "%s (%ux%ux%u): pixel (%u,%u,%u) is %g, expected %g", what, W, H, nb, x, y, b, dv(got), dv(want[(y * W + x) * nb + b])); }
        c.s->checks.fetch_add((uint64_t)W * H * nb); c.step();
    };
    for (int q = 0; q < 25; q++) { if (huge && q % 6 != (int)((w + h) % 6)) continue; Img<E> a(w, h, q % 5, 3, n), b(w, h, q / 5, 4, n); a.set(px);
        if (q / 5 == 0) { if (O::multi) b.inter.reset(new Interleaved<E>(h, w + 1, n)); else b.gray.reset(new Gray<E>(h, w + 1)); }
        O::copy(im(b), im(a)); check_output(c, b, px, "copy"); check_input(c, a, px, "source"); same(im(b), px, w, h, "a copy"); c.state(mc::mix(mc::mix(w * 70000ull + h, nb), q * 64 + sizeof(E))); }
    { Img<E> a(w, h, 0, 3, n); a.set(px); IM d(im(a)); same(d, px, w, h, "a copy-constructed image"); IM* f = O::make(h + 1, w, nb); *f = im(a); same(*f, px, w, h, "an assigned image"); O::fast(*f, w - 1, h - 1, 0) = val<E>(60001); O::fast(d, 0, 0, 0) = val<E>(60002); same(im(a), px, w, h, "the source of copies"); delete f; }
    for (int l = 0; l < 5; l++) { if (huge && l % 3 != (int)(w % 3)) continue; Img<E> a(w, h, l, 3, n); a.set(px); uint32_t x0 = w / 3, y0 = h / 2, x1 = w - (w > 40 ? 7 : 0), y1 = h - (h > 40 ? 5 : 0);
        IM v = im(a).makeSubimage(x0, y0, x1, y1); std::vector<E> want; for (uint32_t y = y0; y < y1; y++) want.insert(want.end(), px.begin() + (y * w + x0) * nb, px.begin() + (y * w + x1) * nb); same(v, want, x1 - x0, y1 - y0, "a sub-image");
        IM v2 = v.makeSubimage(v.width / 2, 0, v.width, v.height); std::vector<E> w2; uint32_t vw = x1 - x0; for (uint32_t y = 0; y < y1 - y0; y++) w2.insert(w2.end(), want.begin() + (y * vw + vw / 2) * nb, want.begin() + (y + 1) * vw * nb); same(v2, w2, vw - vw / 2, y1 - y0, "a sub-image of a sub-image");
        IM* d = O::make(2, 2, nb); O::copy(*d, v2); same(*d, w2, vw - vw / 2, y1 - y0, "a copy of a sub-image"); delete d;
        for (uint32_t x : {0u, w / 2, w - 1}) for (uint32_t y : {0u, h / 2, h - 1}) { E e = val<E>(x * 3 + y); O::at(im(a), x, y, nb - 1) = e; std::vector<E> now = a.get(); c.ok(now[(y * w + x) * nb + nb - 1] == e && &im(a).data[O::index(im(a), x, y, nb - 1)] == &O::at(im(a), x, y, nb - 1), "address", "a pixel of a large image is in the wrong place"); now[(y * w + x) * nb + nb - 1] = px[(y * w + x) * nb + nb - 1]; a.set(now); }
        check_input(c, a, px, "parent"); }
    IM* g = O::make(2, 3, nb);       // grows, shrinks and grows again: the pixels can all be written and read
    for (auto& t : {std::pair<uint32_t, uint32_t>(w, h), {h, w}, {(w + 1) / 2, h}, {w, h + 1}, {1, 1}, {w, h}}) { O::reshape(*g, t.first, t.second, nb, 0); std::vector<E> u = noise_of<E>(t.first * t.second * nb, t.first * 3 + t.second); for (uint32_t i = 0; i < u.size(); i++) O::at(*g, i / nb % t.first, i / nb / t.first, i % nb) = u[i]; same(*g, u, t.first, t.second, "a reshaped image"); c.ok(g->isInBounds(t.first - 1, t.second - 1) && !g->isInBounds(t.first, 0) && !g->isInBounds(0, t.second), "bounds", "isInBounds of a large image is wrong"); }
    delete g;
}
template<class E> static void large_planar(mc::Ctx& c) {
    const Size& s = ladder()[c.choose((uint32_t)ladder().size(), "shape")]; uint32_t w = s.w, h = s.h, n = c.pick({1u, 2u, 3u, 4u, 9u, 33u}, "bands"); if ((uint64_t)w * h * n > (c.thorough ? 3000000u : 200000u)) return; c.shard(); c.describe("planar %ux%u image of %s with %u bands", w, h, type_name<E>(), n);
    typedef Planar<Gray<E>> IM; std::vector<std::vector<E>> px; for (uint32_t b = 0; b < n + 2; b++) px.push_back(noise_of<E>(w * h, b * 99 + w));
    auto paint = [&](IM& m) { for (uint32_t b = 0; b < m.num_bands; b++) for (uint32_t i = 0; i < w * h; i++) m.at(i % w, i / w, b) = px[b][i]; };
    auto same = [&](IM& m, uint32_t bands, const char* what) { if (m.width != w || m.height != h || m.num_bands != bands) c.fail("shape", "%s is %ux%ux%u, expected %ux%ux%u", what, m.width, m.height, m.num_bands, w, h, bands); for (uint32_t b = 0; b < bands; b++) for (uint32_t i = 0; i < w * h; i++) if (!(m.getBand(b).at(i % w, i / w) == px[b][i])) c.fail("pixel", "%s: pixel (%u,%u) of band %u is %g, expected %g", what, i % w, i / w, b, dv(m.getBand(b).at(i % w, i / w)), dv(px[b][i])); c.s->checks.fetch_add((uint64_t)w * h * bands); c.step(); };
    IM a(w, h, n); paint(a); same(a, n, "a painted image"); IM b(a); same(b, n, "a copy"); IM d(h, w, n + 1); d.setTo(a); same(d, n, "an image set to another"); IM e(1, 1, 1); e = a; same(e, n, "an assigned image"); e.at(w - 1, h - 1, n - 1) = val<E>(60001); b.at(0, 0, 0) = val<E>(60002); same(a, n, "the source of copies");
    a.setNumberOfBands(n + 2); same(d, n, "another image"); paint(a); same(a, n + 2, "an image with more bands"); a.setNumberOfBands(1); same(a, 1, "an image with one band"); a.reshape(h, w); a.reshape(w, h); paint(a); same(a, 1, "a reshaped image"); c.ok(throws([&] { a.getBand(1); }) && throws([&] { a.at(0, 0, 1); }) && throws([&] { a.at(w, 0, 0); }) && throws([&] { a.at(0, h, 0); }), "no-refusal", "a pixel outside was not refused"); c.state(mc::mix(w * 70000ull + h, n * 64 + sizeof(E)));
}
void mc_body(mc::Ctx& c) {
#if PROP == 7
    if (c.flag("large")) { switch (c.choose(4, "type")) { case 0: large<GrayOps<U8>>(c); break; case 1: large<GrayOps<S16>>(c); break; case 2: large<GrayOps<F32>>(c); break; default: large<GrayOps<F64>>(c); } return; }
    int t = c.choose(6, "type"); if (t == 5) { switch (c.choose(4, "table")) { case 0: odd_gray<U8>(c); break; case 1: odd_gray<S16>(c); break; case 2: odd_gray<F32>(c); break; default: odd_gray<F64>(c); } return; }
    int depth = 1 + c.choose(c.thorough && (t == 0 || t == 2) ? 4 : 3, "depth");
    switch (t) { case 0: history<GrayOps<U8>>(c, depth); break; case 1: history<GrayOps<S16>>(c, depth); break; case 2: history<GrayOps<F32>>(c, depth); break; case 3: history<GrayOps<F64>>(c, depth); break; default: history<GrayOps<S32>>(c, depth); }
#else
    if (c.flag("large")) { switch (c.choose(8, "type")) { case 0: large<InterOps<U8>>(c); break; case 1: large<InterOps<S16>>(c); break; case 2: large<InterOps<F32>>(c); break; case 3: large<InterOps<F64>>(c); break; case 4: large_planar<U8>(c); break; case 5: large_planar<S16>(c); break; case 6: large_planar<F32>(c); break; default: large_planar<F64>(c); } return; }
    int t = c.choose(8, "type");
    int depth = 1 + c.choose(t >= 4 ? (c.thorough ? 4 + (t == 5) : 3 + (t & 1)) : c.thorough && t == 2 ? 4 : 3, "depth");
    switch (t) { case 0: history<InterOps<U8>>(c, depth); break; case 1: history<InterOps<S16>>(c, depth); break; case 2: history<InterOps<F32>>(c, depth); break; case 3: history<InterOps<F64>>(c, depth); break;
        case 4: planar<U8>(c, depth); break; case 5: planar<S16>(c, depth); break; case 6: planar<F32>(c, depth); break; default: planar<F64>(c, depth); }
#endif
}
