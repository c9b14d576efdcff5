// reference for pixels outside an image, written from the documentation of each policy
#ifndef VERIF_BORDER_REF_H
#define VERIF_BORDER_REF_H
#include "util.h"
#include "image_border.h"
enum RefBorder { RB_EXTENDED, RB_REFLECT, RB_WRAP, RB_ZERO, RB_VALUE, RB_COUNT };
static const char* const border_name[] = {"extended", "reflect", "wrap", "zero", "value"};
static inline int64_t ref_index(int64_t x, int64_t n, int type) {
    if (x >= 0 && x < n) return x;
    if (type == RB_EXTENDED) return x < 0 ? 0 : n - 1;
    if (type == RB_WRAP) { int64_t r = x % n; return r < 0 ? r + n : r; }
    if (n == 1) return 0;               // reflect: f(-1)=f(1), f(-2)=f(2), again and again
    int64_t p = 2 * (n - 1), r = x % p; if (r < 0) r += p;
    return r < n ? r : p - r;
}
template<class E> static inline E ref_pixel(const std::vector<E>& v, int64_t w, int64_t h, int64_t x, int64_t y, int type, E value) {
    if (x >= 0 && y >= 0 && x < w && y < h) return v[y * w + x];
    if (type == RB_ZERO) return 0;
    if (type == RB_VALUE) return value;
    return v[ref_index(y, h, type) * w + ref_index(x, w, type)];
}
template<class E> static std::shared_ptr<boofcv::ImageBorder<E>> make_border(int type, E value) {
    using namespace boofcv;
    switch (type) {
        case RB_EXTENDED: return FactoryImageBorder::create_SB<E>(EXTENDED);
        case RB_REFLECT: return FactoryImageBorder::create_SB<E>(REFLECT);
        case RB_WRAP: return FactoryImageBorder::create_SB<E>(WRAP);
        case RB_ZERO: return FactoryImageBorder::create_SB<E>(ZERO);
        default: return FactoryImageBorder::value_SB<E>(value);
    }
}
// distinct (as far as the type allows) and reproducible pixel values; kind 0 small and distinct, 1 spread over the
// type's range, 2 the largest magnitude
template<class E> static std::vector<E> pixels(uint32_t n, int kind, uint32_t seed) {
    std::vector<E> v(n); uint32_t s = seed * 7919 + 17; bool f = std::is_floating_point<E>::value, sg = f || std::is_signed<E>::value;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t r = lcg(s);
        if (kind == 0) v[i] = (E)(i + 1);
        else if (kind == 1) v[i] = f ? (E)(((int)(r % 4001) - 2000) * 0.25) : sizeof(E) == 1 ? (E)(r % 256) : sg ? (E)((int)(r % 20001) - 10000) : (E)(r % 65536);
        else v[i] = sizeof(E) == 1 ? (E)(r & 1 ? 255 : 254) : f || sizeof(E) > 2 ? (E)(r & 1 ? -30000 : 30000) : sg ? (E)(r & 1 ? -32768 : 32767) : (E)(r & 1 ? 65535 : 65534);
    }
    return v;
}
#endif
