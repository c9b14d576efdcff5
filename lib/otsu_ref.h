// Otsu's threshold from its definition.  Several answers are acceptable where splits tie up to rounding.
#ifndef VERIF_OTSU_REF_H
#define VERIF_OTSU_REF_H
#include <vector>
#include <cstdint>
#include <cmath>
#include <algorithm>
struct OtsuRef { std::vector<double> raw; double variance = 0; bool whole = true; };
static inline bool pow2(uint64_t v) { return v && !(v & (v - 1)); }
static inline OtsuRef ref_otsu(const std::vector<uint32_t>& h, bool otsu2) {
    OtsuRef r; r.whole = !otsu2; size_t n = h.size(); int64_t total = 0, sum = 0;
    for (size_t i = 0; i < n; i++) { total += h[i]; sum += (int64_t)i * h[i]; }
    std::vector<double> var(n, -1), mid(n, 0); double best = 0; int64_t wb = 0, sb = 0; bool exact = pow2(n);
    for (size_t i = 0; i < n; i++) {
        wb += h[i]; sb += (int64_t)i * h[i]; int64_t wf = total - wb;
        if (wb == 0 || wf == 0 || h[i] == 0) continue;       // an empty bin gives the same split as the bin before it
        exact = exact && pow2(wb) && pow2(wf);
        long double num = (long double)sb * wf - (long double)(sum - sb) * wb;   // (mB-mF)*wB*wF
        var[i] = (double)(num * num / ((long double)wb * wf) / ((long double)n * n));
        mid[i] = ((double)sb / wb + (double)(sum - sb) / wf) / 2;
        best = std::max(best, var[i]);
    }
    r.variance = best;
    for (size_t i = 0; i < n && best > 0; i++) if (var[i] >= best * (exact ? 1 - 1e-14 : 1 - 1e-9)) { r.raw.push_back(otsu2 ? mid[i] : (double)i); if (exact) break; }
    if (r.raw.empty()) r.raw.push_back(0);
    return r;
}
// every acceptable threshold after the penalty, the scale and the rounding
static inline std::vector<double> ref_otsu_final(const OtsuRef& r, double tuning, bool down, double scale) {
    std::vector<double> out; double v = r.variance + 0.001;
    for (double t : r.raw) {
        double a = tuning * t * tuning * t / v, e = a == std::floor(a) && tuning == 0 ? 0 : 4e-9 * (1 + a);
        for (double adj : {std::floor(a - e + 0.5), std::floor(a + e + 0.5)}) {
            double u = std::max(0.0, t + (down ? -adj : adj)) * scale, f = 1e-9 * (1 + u);
            for (double w : {std::floor(u - f + 0.5), std::floor(u + f + 0.5)}) {
                // a tie that the arithmetic resolves exactly goes up
                if (r.whole && u * 2 == std::floor(u * 2) && (scale == 1 || scale == 2 || scale == 0.5)) w = std::floor(u + 0.5);
                if (std::find(out.begin(), out.end(), w) == out.end()) out.push_back(w);
            }
        }
    }
    return out;
}
// large penalties have more whole numbers within rounding than the two ends
static inline bool ref_otsu_accepts(const OtsuRef& r, double tuning, bool down, double scale, double got) {
    if (got != std::floor(got)) return false;
    for (double t : r.raw) {
        OtsuRef one = r; one.raw.assign(1, t); std::vector<double> v = ref_otsu_final(one, tuning, down, scale);
        if (got >= *std::min_element(v.begin(), v.end()) && got <= *std::max_element(v.begin(), v.end())) return true;
    }
    return false;
}
#endif
