// reference for normalised one-dimensional filtering: weights only count inside the image
#ifndef VERIF_NORM_REF_H
#define VERIF_NORM_REF_H
#include "border_ref.h"
template<class E, class S> static std::vector<E> ref_normalized(const std::vector<E>& in, int w, int h, const std::vector<S>& k, int off, bool vertical) {
    std::vector<E> out(in.size()); bool f = std::is_floating_point<E>::value;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        double tf = 0, wf = 0; int64_t ti = 0, wi = 0;
        for (int j = 0; j < (int)k.size(); j++) {
            int xx = vertical ? x : x + j - off, yy = vertical ? y + j - off : y;
            if (xx < 0 || yy < 0 || xx >= w || yy >= h) continue;
            if (f) { tf += (double)in[yy * w + xx] * (double)k[j]; wf += (double)k[j]; } else { ti += (int64_t)in[yy * w + xx] * (int64_t)k[j]; wi += (int64_t)k[j]; }
        }
        // integer division truncates after half the weight was added, as in the Java library
        out[y * w + x] = f ? (E)(tf / wf) : (E)((ti + wi / 2) / wi);
    }
    return out;
}
template<class E> static double magnitude(const std::vector<E>& v) { double m = 1e-3; for (auto& e : v) m = std::max(m, std::abs((double)e)); return m; }
template<class E> static double ftol(const std::vector<E>& v) { return !std::is_floating_point<E>::value ? 0 : magnitude(v) * (sizeof(E) == 4 ? 2e-5 : 1e-11); }

// Gaussian weights, independently of the library.  Integer weights are the floating ones divided by the smallest
// significant one and truncated; where that quotient is a whole number up to rounding either neighbour is right, so
// then the library's own (separately checked) weight is taken if it is one of the two.
template<class S, class K> static bool ref_gaussian(double sigma, int width, K lib, std::vector<S>& out) {
    if (width <= 0) { if (sigma <= 0) return false; width = 2 * (int)std::ceil((5 * sigma - 1) / 2) + 1; }
    else if (sigma <= 0) { if (width == 1) return false; sigma = (2 * (width / 2) + 1) / 5.0; }
    std::vector<double> g(width); double s = 0, mx = 0, mn = 1e300;
    for (int i = 0; i < width; i++) { double x = i - (width - 1) / 2.0; g[i] = std::exp(-x * x / (2 * sigma * sigma)); s += g[i]; }
    for (auto& x : g) { x /= s; mx = std::max(mx, x); mn = std::min(mn, x); }
    out.assign(width, 0);
    if (std::is_floating_point<S>::value) { for (int i = 0; i < width; i++) out[i] = (S)g[i]; return true; }
    double m = std::max(mn, mx / 100); boofcv::Kernel1D<S> k = lib();
    for (int i = 0; i < width; i++) {
        double r = g[i] / m, lo = std::floor(r - 1e-6), hi = std::floor(r + 1e-6);
        out[i] = (S)lo; if (hi != lo) out[i] = k.width == (uint32_t)width && (double)k.data[i] == hi ? (S)hi : (double)k.data[i] == lo ? (S)lo : (S)hi;
    }
    return true;
}
#endif
