// util.h - images in every memory layout a caller can hand over, and plain reference containers
#ifndef VERIF_UTIL_H
#define VERIF_UTIL_H
#include "mc.h"
#include "image_types.h"
#include "base_types.h"
#include <memory>
#include <vector>
#include <string>
#include <typeinfo>
#include <type_traits>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__)
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define POISON(p, n)
#define UNPOISON(p, n)
#endif

using boofcv::U8; using boofcv::U16; using boofcv::S16; using boofcv::S32; using boofcv::S64; using boofcv::F32; using boofcv::F64;
using boofcv::Gray; using boofcv::Interleaved; using boofcv::Planar;

template<class E> const char* type_name() { return typeid(E).name(); }
template<> inline const char* type_name<U8>() { return "U8"; }
template<> inline const char* type_name<U16>() { return "U16"; }
template<> inline const char* type_name<S16>() { return "S16"; }
template<> inline const char* type_name<S32>() { return "S32"; }
template<> inline const char* type_name<F32>() { return "F32"; }
template<> inline const char* type_name<F64>() { return "F64"; }

inline uint32_t lcg(uint32_t& s) { s = s * 1664525u + 1013904223u; return s >> 8; }

// Layouts:
//  0  the image owns its memory (nothing around it: any stray access hits a sanitizer redzone)
//  1  view whose surroundings are poisoned: any read or write outside the view aborts
//  2  view at an odd offset with an odd stride; the surroundings are canaries checked afterwards
//  3  view at offset 0 with a larger stride
//  4  view at an offset whose stride equals its width
constexpr int LAYOUTS = 5;
static const char* const layout_name[LAYOUTS] = {"plain", "poisoned-view", "odd-view", "offset0-view", "tight-view"};

template<class E> E garbage(uint32_t& s) {
    uint32_t v = lcg(s);
    return std::is_floating_point<E>::value ? (E)((int)(v % 1000) - 300) : (E)(v | 1);
}

// A gray or interleaved image (bands=1 for gray) together with the buffer it lives in.
template<class E> struct Img {
    uint32_t w, h, bands; int layout;
    std::unique_ptr<Gray<E>> gray;
    std::unique_ptr<Interleaved<E>> inter;
    E* base = nullptr; uint32_t total = 0, off = 0, stride = 0;
    std::vector<E> shadow;                  // what the buffer held when it was armed
    uint32_t seed;

    // fill: the pixels start as garbage, so a result that depends on earlier contents shows
    Img(uint32_t w, uint32_t h, int layout, uint32_t seed_ = 1, uint32_t bands = 0) : w(w), h(h), bands(bands ? bands : 1), layout(layout), seed(seed_ * 2654435761u + 12345) {
        uint32_t rw = w * this->bands;
        uint32_t al = 8 / sizeof(E) ? 8 / sizeof(E) : 1;
        uint32_t tail = 0;
        switch (layout) {
            case 0: break;
            case 1: off = 2 * al; stride = (rw + al - 1) / al * al + al; tail = al; break;
            case 2: off = 5; stride = rw + 3; tail = 4; break;
            case 3: off = 0; stride = rw + 2; tail = 3; break;
            default: off = 7; stride = rw; tail = 5; break;
        }
        if (layout == 0) {
            if (bands) inter.reset(new Interleaved<E>(w, h, bands)); else gray.reset(new Gray<E>(w, h));
            E* d = bands ? inter->data : gray->data;
            for (uint32_t i = 0; i < rw * h; i++) d[i] = garbage<E>(seed);
            return;
        }
        total = off + stride * h + tail;
        base = (E*)malloc(total * sizeof(E));
        for (uint32_t i = 0; i < total; i++) base[i] = garbage<E>(seed);
        if (bands) inter.reset(new Interleaved<E>(base, total, w, h, bands, off, stride));
        else gray.reset(new Gray<E>(base, total, w, h, off, stride));
        if (layout == 1) {
            POISON(base, off * sizeof(E));
            for (uint32_t y = 0; y < h; y++) {
                E* end = base + off + y * stride + rw;
                POISON(end, (stride - rw) * sizeof(E));
            }
            POISON(base + off + h * stride, tail * sizeof(E));
        } else {
            shadow.assign(base, base + total);
        }
    }
    ~Img() { gray.reset(); inter.reset(); if (base) { UNPOISON(base, total * sizeof(E)); free(base); } }
    Img(const Img&) = delete; Img& operator=(const Img&) = delete;

    Gray<E>& g() { return *gray; }
    Interleaved<E>& i() { return *inter; }
    // pixel access that does not go through the code under test; valid as long as the image keeps the shape it has now
    E* row(uint32_t y) {
        if (layout) return base + off + y * stride;
        return gray ? gray->data + gray->offset + y * gray->stride : inter->data + inter->offset + y * inter->stride;
    }
    E& px(uint32_t x, uint32_t y) { return row(y)[x]; }
    E& px(uint32_t x, uint32_t y, uint32_t b) { return row(y)[x * bands + b]; }
    void set(const std::vector<E>& v) { for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w * bands; x++) row(y)[x] = v[y * w * bands + x]; }
    std::vector<E> get() {
        std::vector<E> v(w * bands * h);
        for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w * bands; x++) v[y * w * bands + x] = row(y)[x];
        return v;
    }
    // true when the image still is the rectangle it was created as (same memory for views)
    bool shape_ok() {
        if (gray) return gray->width == w && gray->height == h && (layout == 0 ? !gray->subimage : gray->data == base && gray->offset == off && gray->stride == stride && gray->subimage);
        return inter->width == w && inter->height == h && inter->num_bands == bands && (layout == 0 ? !inter->subimage : inter->data == base && inter->offset == off && inter->stride == stride && inter->subimage);
    }
    // index of the first changed cell outside the view, or -1
    int64_t stray() {
        if (layout < 2) return -1;
        for (uint32_t i = 0; i < total; i++) {
            uint32_t r = i - off;
            if (i >= off && r / (stride ? stride : 1) < h && r % (stride ? stride : 1) < w * bands) continue;
            if (memcmp(&base[i], &shadow[i], sizeof(E)) != 0) return i;
        }
        return -1;
    }
};

template<class E> double dv(E v) { return (double)v; }

template<class E> std::string show(const std::vector<E>& v, uint32_t w) {
    std::string r = "[";
    char b[40];
    for (size_t i = 0; i < v.size() && i < 400; i++) {
        if (i) r += (w && i % w == 0) ? " | " : " ";
        snprintf(b, sizeof b, "%.9g", (double)v[i]); r += b;
    }
    return r + "]";
}

// checks that an input image was not changed
template<class E> void check_input(mc::Ctx& c, Img<E>& im, const std::vector<E>& before, const char* what) {
    if (!im.shape_ok()) c.fail("input-changed", "the %s image's shape or memory was changed", what);
    std::vector<E> now = im.get();
    if (!now.empty() && memcmp(now.data(), before.data(), now.size() * sizeof(E)) != 0)
        for (size_t i = 0; i < now.size(); i++) if (memcmp(&now[i], &before[i], sizeof(E)) != 0)
            c.fail("input-changed", "the %s image was changed at (%u,%u): %g became %g", what, (unsigned)(i / im.bands % im.w), (unsigned)(i / im.bands / im.w), dv(before[i]), dv(now[i]));
    int64_t s = im.stray();
    if (s >= 0) c.fail("stray-write", "memory around the %s view was changed at buffer index %lld", what, (long long)s);
}
template<class E> void check_stray(mc::Ctx& c, Img<E>& im, const char* what) {
    if (!im.shape_ok()) c.fail("output-shape", "the %s image does not have shape %ux%u any more", what, im.w, im.h);
    int64_t s = im.stray();
    if (s >= 0) c.fail("stray-write", "memory around the %s view was changed at buffer index %lld", what, (long long)s);
}
// compares an output with its reference, exactly or within tol
template<class E> void check_output(mc::Ctx& c, Img<E>& im, const std::vector<E>& want, const char* sig, double tol = 0) {
    check_stray(c, im, "output");
    c.s->checks.fetch_add(want.size(), std::memory_order_relaxed);
    uint32_t rw = im.w * im.bands;
    for (uint32_t y = 0; y < im.h; y++) {
        const E* r = im.row(y);
        for (uint32_t x = 0; x < rw; x++) {
            E a = r[x], b = want[y * rw + x];
            bool good = tol == 0 ? a == b : !(std::abs((double)a - (double)b) > tol) && a == a;
            if (!good) c.fail(sig, "pixel (%u,%u)%s of a %ux%u image is %.9g, expected %.9g", x / im.bands, y, im.bands > 1 ? " band" : "", im.w, im.h, dv(a), dv(b));
        }
    }
}
// shapes around the sizes where implementations change their ways (machine words, unrolled loops, tiles, 16-bit counters)
struct Size { uint32_t w, h; };
inline const std::vector<Size>& ladder() {
    static std::vector<Size> r;
    if (r.empty()) {
        for (uint32_t n : {31u, 32u, 33u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 200u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 1000u, 1023u, 1024u, 1025u, 2047u, 2048u, 2049u, 4095u, 4096u, 4097u, 10000u, 65535u, 65536u, 65537u}) {
            r.push_back({n, 2}); r.push_back({2, n});
            if (n <= 1025) { r.push_back({n, 5}); r.push_back({5, n}); } else if (n < 65000) { r.push_back({n, 3}); r.push_back({3, n}); }
        }
        for (uint32_t n : {33u, 65u, 129u, 257u}) { r.push_back({n, n + 1}); r.push_back({n + 3, n - 2}); }
        r.push_back({640, 480}); r.push_back({270, 300});
    }
    return r;
}
template<class F> bool throws(F f) { try { f(); } catch (mc::Violation&) { throw; } catch (mc::Known&) { throw; } catch (...) { return true; } return false; }
#endif
