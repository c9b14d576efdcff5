// A table of every image operation of the library, run on images an Args object supplies.  Used to compare plain images
// with views (C24) and to run pairs of operations in two threads (C30).
#ifndef VERIF_OPS_H
#define VERIF_OPS_H
#include "border_ref.h"
#include "fault.h"
#include "threshold_block_filters.h"
#include "binary_ops.h"
#include "image_blur.h"
#include "convolve.h"
#include "convolve_kernels.h"
#include "contour.h"
#include "image_statistics.h"
#include "image_misc_ops.h"
#include "image_convert.h"
#include "geometry_types.h"
#include <functional>
struct Holder { virtual ~Holder() {} virtual void collect(std::vector<double>& r) = 0; virtual std::string problem() = 0; };
template<class E> struct HolderOf : Holder {
    Img<E> im; std::vector<E> before; bool input, output;
    HolderOf(uint32_t w, uint32_t h, int l, uint32_t seed, uint32_t bands, bool input, bool output) : im(w, h, l, seed, bands), input(input), output(output) {}
    void collect(std::vector<double>& r) override { if (output) for (E v : im.get()) r.push_back((double)v); }
    std::string problem() override {
        char b[160]; if (!im.shape_ok()) return "an image changed its shape or memory"; int64_t s = im.stray();
        if (s >= 0) { snprintf(b, sizeof b, "memory around a view (%s, %ux%u) was changed at buffer index %lld", layout_name[im.layout], im.w, im.h, (long long)s); return b; }
        if (input) { std::vector<E> now = im.get(); if (!now.empty() && memcmp(now.data(), before.data(), now.size() * sizeof(E)) != 0) return "an input image was changed"; }
        return "";
    }
};
struct Args {
    uint32_t w, h, seed; std::vector<int> layouts; size_t next = 0; int data; std::vector<std::shared_ptr<Holder>> held; std::vector<double> result; bool threw = false;
    size_t inputs = 0; const void* (*pool)(int type, uint32_t bands, int kind, size_t index) = nullptr;      // where inputs shared by two threads live
    Args(uint32_t w, uint32_t h, const std::vector<int>& layouts, uint32_t seed, int data) : w(w), h(h), seed(seed), layouts(layouts), data(data) {}
    int layout() { int l = next < layouts.size() ? layouts[next] : 0; next++; return l; }
    template<class E> HolderOf<E>* make(uint32_t bands, bool input, bool output) { fault::Pause pause; auto p = std::make_shared<HolderOf<E>>(w, h, layout(), seed + (uint32_t)held.size() * 13, bands, input, output); held.push_back(p); return p.get(); }
    template<class E> HolderOf<E>* input(uint32_t bands, int kind) {
        fault::Pause pause;
        inputs++;
        auto* p = make<E>(bands, true, false); std::vector<E> v = pixels<E>(w * h * p->im.bands, 1, w * 37 + h + data * 101 + (uint32_t)inputs);
        shape_values(v, kind, data); p->im.set(v); p->before = v; return p;
    }
    template<class E> static void shape_values(std::vector<E>& v, int kind, int data) { if (kind == 1) for (auto& e : v) e = (E)(((int64_t)(e * 8) >> (data + 1)) & 1); if (kind == 2) for (auto& e : v) e = (E)((int64_t)(e * 8) & 255); }
    template<class E> static int type_code() { return sizeof(E) == 1 ? 0 : sizeof(E) == 2 ? 1 : 2; }
    // kind 0 any pixel value, 1 binary, 2 0..255
    template<class E> const Gray<E>& in(int kind = 0) { if (pool) return *(const Gray<E>*)pool(type_code<E>(), 0, kind, inputs++); return input<E>(0, kind)->im.g(); }
    template<class E> const Interleaved<E>& iin(uint32_t bands) { if (pool) return *(const Interleaved<E>*)pool(type_code<E>(), bands, 0, inputs++); return input<E>(bands, 0)->im.i(); }
    template<class E> Gray<E>& out() { return make<E>(0, false, true)->im.g(); }
    template<class E> Interleaved<E>& iout(uint32_t bands) { return make<E>(bands, false, true)->im.i(); }
    template<class E> Gray<E>& work() { return make<E>(0, false, false)->im.g(); }
    // an operation that only writes some of the pixels: the others keep what they had, which must be the same in every run
    template<class E> Gray<E>& inout() { fault::Pause pause; auto* p = make<E>(0, false, true); p->im.set(pixels<E>(w * h, 1, w + h)); return p->im.g(); }
    void number(double v) { fault::Pause pause; result.push_back(v); }
    void finish() { for (auto& p : held) p->collect(result); }
    std::string problem() { for (auto& p : held) { std::string s = p->problem(); if (!s.empty()) return s; } return ""; }
};
struct Op { std::string name; std::function<void(Args&)> run; };
template<class E> struct Ops {
    typedef typename boofcv::TypeInfo<E>::signed_type S;
    static boofcv::Kernel1D<S> k1(uint32_t w, uint32_t o) { boofcv::Kernel1D<S> k(w, o); for (uint32_t i = 0; i < w; i++) k[i] = (S)(1 + i % 3); return k; }
    static boofcv::Kernel2D<S> k2(uint32_t w, uint32_t o) { boofcv::Kernel2D<S> k(w, o); for (uint32_t i = 0; i < w * w; i++) k.at(i % w, i / w) = (S)(1 + i % 3); return k; }
    static bool is_int() { return std::is_integral<E>::value; }
    static void numeric(std::vector<Op>& r) {
        using namespace boofcv; std::string t = std::string("<") + type_name<E>() + ">";
        typedef typename std::conditional<std::is_integral<E>::value && sizeof(E) < 4, S32, E>::type R;
        for (uint32_t kw : {1u, 2u, 3u, 5u, 9u}) for (int b = 0; b < RB_COUNT; b++) {
            if (kw != 3 && b != (int)(kw % RB_COUNT)) continue; std::string n = " width " + std::to_string(kw) + " " + border_name[b]; uint32_t o = kw / 2;
            r.push_back({"ConvolveImage::horizontal" + t + n, [=](Args& a) { auto bd = make_border<E>(b, (E)9); bd->setImage(a.in<E>()); ConvolveImage::horizontal(k1(kw, o), *bd, a.out<R>()); }});
            r.push_back({"ConvolveImage::vertical" + t + n, [=](Args& a) { auto bd = make_border<E>(b, (E)9); bd->setImage(a.in<E>()); ConvolveImage::vertical(k1(kw, o), *bd, a.out<R>()); }});
            if (kw < 9) r.push_back({"ConvolveImage::convolve" + t + n, [=](Args& a) { auto bd = make_border<E>(b, (E)9); bd->setImage(a.in<E>()); ConvolveImage::convolve(k2(kw, o), *bd, a.out<R>()); }});
        }
        for (uint32_t kw : {1u, 2u, 3u, 4u, 7u, 15u}) { uint32_t o = kw / 2; std::string n = " width " + std::to_string(kw);
            r.push_back({"ConvolveNormalized::horizontal" + t + n, [=](Args& a) { auto& i = a.in<E>(); ConvolveNormalized::horizontal(k1(kw, o), i, a.out<E>()); }});
            r.push_back({"ConvolveNormalized::vertical" + t + n, [=](Args& a) { auto& i = a.in<E>(); ConvolveNormalized::vertical(k1(kw, o), i, a.out<E>()); }});
            r.push_back({"ConvolveNormalized::convolve" + t + n, [=](Args& a) { auto& i = a.in<E>(); auto& q = a.out<E>(); ConvolveNormalized::convolve(k1(kw, o), i, q, a.work<E>()); }});
            r.push_back({"ConvolveNormalizedNaive::horizontal" + t + n, [=](Args& a) { auto& i = a.in<E>(); ConvolveNormalizedNaive::horizontal(k1(kw, o), i, a.out<E>()); }});
            r.push_back({"ConvolveNormalizedNaive::vertical" + t + n, [=](Args& a) { auto& i = a.in<E>(); ConvolveNormalizedNaive::vertical(k1(kw, o), i, a.out<E>()); }});
            r.push_back({"inner and border horizontal" + t + n, [=](Args& a) { auto& i = a.in<E>(); auto& q = a.inout<E>(); if (kw > a.w) return; auto bd = make_border<E>(RB_REFLECT, (E)0); bd->setImage(i); ConvolveImage_Inner::horizontal(k1(kw, o), i, q, (S)7); ConvolveNormalized_JustBorder::horizontal(k1(kw, o), i, q); ConvolveImage_Border::horizontal(k1(kw, o), *bd, q); }});
            r.push_back({"inner and border vertical" + t + n, [=](Args& a) { auto& i = a.in<E>(); auto& q = a.inout<E>(); if (kw > a.h) return; auto bd = make_border<E>(RB_WRAP, (E)0); bd->setImage(i); ConvolveImage_Inner::vertical(k1(kw, o), i, q, (S)7); ConvolveNormalized_JustBorder::vertical(k1(kw, o), i, q); ConvolveImage_Border::vertical(k1(kw, o), *bd, q); }});
            r.push_back({"mean horizontal" + t + n, [=](Args& a) { auto& i = a.in<E>(); ConvolveImageMean::horizontal(i, a.out<E>(), kw); }});
            r.push_back({"mean vertical" + t + n, [=](Args& a) { auto& i = a.in<E>(); ConvolveImageMean::vertical(i, a.out<E>(), kw); }});
            r.push_back({"BlurImageOps::mean" + t + n, [=](Args& a) { auto& i = a.in<E>(); auto& q = a.out<E>(); BlurImageOps::mean(i, q, kw, a.work<E>()); }});
            if (kw > 1) r.push_back({"BlurImageOps::gaussian" + t + n, [=](Args& a) { auto& i = a.in<E>(); auto& q = a.out<E>(); BlurImageOps::gaussian(i, q, kw == 4 ? 1.3 : -1, kw == 4 ? -1 : (int)kw, a.work<E>()); }});
        }
        for (int down = 0; down < 2; down++) { std::string n = down ? " down" : " up";
            r.push_back({"ThresholdOps::threshold" + t + n, [=](Args& a) { auto& i = a.in<E>(2); ThresholdOps::threshold(i, (E)100, down, a.out<U8>()); }});
            r.push_back({"GlobalOtsuBinaryFilter" + t + n, [=](Args& a) { auto& i = a.in<E>(2); GlobalOtsuBinaryFilter<E> f((E)0, (E)255, down); f.process(i, a.out<U8>()); }});
            r.push_back({"ThresholdOps::localMean" + t + n, [=](Args& a) { auto& i = a.in<E>(2); auto& q = a.out<U8>(); auto& s = a.work<E>(); ThresholdOps::localMean(i, q, ConfigLength::fixed(3), 0.95f, down, s, a.work<E>()); }});
            r.push_back({"LocalMeanBinaryFilter" + t + n, [=](Args& a) { auto& i = a.in<E>(2); LocalMeanBinaryFilter<E> f(ConfigLength::fixed(4), 1.0f, down); f.process(i, a.out<U8>()); }});
            for (int local = 0; local < 2; local++) for (uint32_t len : {1u, 2u, 3u}) { std::string m = n + (local ? " local " : " single ") + std::to_string(len);
                r.push_back({"ThresholdBlockMean" + t + m, [=](Args& a) { auto& i = a.in<E>(2); ThresholdBlockMean<E> f(ConfigLength::fixed(len), local, 0.9, down); f.process(i, a.out<U8>()); }});
                r.push_back({"ThresholdBlockMinMax" + t + m, [=](Args& a) { auto& i = a.in<E>(2); ThresholdBlockMinMax<E> f(50, ConfigLength::fixed(len), local, 0.9f, down); f.process(i, a.out<U8>()); }});
                r.push_back({"ThresholdBlockOtsu" + t + m, [=](Args& a) { auto& i = a.in<E>(2); ThresholdBlockOtsu<E> f(len == 2, ConfigLength::fixed(len), 0.1, 1.0, down, local); f.process(i, a.out<U8>()); }});
            }
        }
        r.push_back({"statistics" + t, [=](Args& a) { auto& i = a.in<E>(); if (a.w && a.h) { a.number((double)ImageStatistics::min(i)); a.number((double)ImageStatistics::max(i)); a.number((double)ImageStatistics::mean(i)); } a.number((double)ImageStatistics::sum(i)); }});
        r.push_back({"histogram" + t, [=](Args& a) { auto& i = a.in<E>(2); GrowArray<uint32_t> g(256); ImageStatistics::histogram(i, (E)0, g); for (uint32_t k = 0; k < 256; k++) a.number(g[k]); }});
        r.push_back({"fill" + t, [=](Args& a) { ImageMiscOps::fill(a.out<E>(), (E)17); ImageMiscOps::fill(a.iout<E>(3), (E)7); }});
        r.push_back({"fill_border" + t, [=](Args& a) { if (a.w && a.h) ImageMiscOps::fill_border(a.inout<E>(), (E)17, 1 + a.w % 3); }});
        r.push_back({"fill_uniform" + t, [=](Args& a) { std::mt19937 g(5); ImageMiscOps::fill_uniform(a.out<E>(), (E)3, (E)90, g); }});
        r.push_back({"convert_average" + t, [=](Args& a) { auto& i = a.iin<E>(3); convert_average(i, a.out<E>()); }});
        r.push_back({"setTo" + t, [=](Args& a) { auto& j = a.iin<E>(2); a.iout<E>(2).setTo(j); auto& i = a.in<E>(); a.out<E>().copy(i); }});
        r.push_back({"copy" + t, [=](Args& a) { auto& i = a.in<E>(); Gray<E> g(i); auto& j = a.iin<E>(3); Interleaved<E> q(j); for (uint32_t y = 0; y < a.h; y++) for (uint32_t x = 0; x < a.w; x++) { a.number((double)g.at(x, y)); for (int b = 0; b < 3; b++) a.number((double)q.at(x, y, b)); } }});
        r.push_back({"border access" + t, [=](Args& a) { auto& i = a.in<E>(); if (!a.w || !a.h) return; for (int b = 0; b < RB_COUNT; b++) { auto bd = make_border<E>(b, (E)9); bd->setImage(i); for (int y = -9; y < (int)a.h + 9; y += 2) for (int x = -9; x < (int)a.w + 9; x += 3) a.number((double)bd->get(x, y)); } }});
    }
    static void binary(std::vector<Op>& r) {
        using namespace boofcv;
        r.push_back({"logicAnd", [](Args& a) { auto& i = a.in<U8>(1); auto& j = a.in<U8>(1); BinaryImageOps::logicAnd(i, j, a.out<U8>()); }});
        r.push_back({"logicOr", [](Args& a) { auto& i = a.in<U8>(1); auto& j = a.in<U8>(1); BinaryImageOps::logicOr(i, j, a.out<U8>()); }});
        r.push_back({"erode4", [](Args& a) { auto& i = a.in<U8>(1); BinaryImageOps::erode4(i, a.out<U8>()); }});
        r.push_back({"dilate4", [](Args& a) { auto& i = a.in<U8>(1); BinaryImageOps::dilate4(i, a.out<U8>()); }});
        for (int eight = 0; eight < 2; eight++) r.push_back({eight ? "contours, 8-connect" : "contours, 4-connect", [=](Args& a) {
            auto& i = a.in<U8>(1); LinearContourLabelChang2004 f(eight ? EIGHT : FOUR); f.process(i, a.out<S32>()); a.number((double)f.contours.size()); std::vector<Point2D<S32>> p;
            for (auto& q : f.contours) { a.number(q.id); a.number(q.externalIndex); a.number((double)q.internalIndexes.size()); for (uint32_t k : q.internalIndexes) a.number(k); f.packedPoints.load_set(q.externalIndex, p); for (auto& z : p) { a.number(z.x); a.number(z.y); } } }});
        r.push_back({"kernels", [](Args& a) { for (int w : {3, 4, 7}) { auto k = FactoryKernel::gaussian1D<F32>(-1, w); for (uint32_t i = 0; i < k.width; i++) a.number(k[i]); auto q = FactoryKernel::gaussian1D<S32>(-1, w); for (uint32_t i = 0; i < q.width; i++) a.number(q[i]); auto z = FactoryKernel::gaussian2D<F32>(1.1, w); for (uint32_t i = 0; i < z.width; i++) a.number(z.at(i, 1)); } }});
        r.push_back({"growing arrays", [](Args& a) { GrowArray<uint32_t> g(3); g.fill(4); g.resize(9); for (uint32_t i = 0; i < g.size; i++) a.number(g[i]); PackedSet<Point2D<S32>> p(4); for (int k = 0; k < 3; k++) { p.start_new_set(); for (int i = 0; i < 5; i++) p.push_tail(Point2D<S32>(i, k)); } std::vector<Point2D<S32>> q; for (uint32_t k = 0; k < p.number_of_sets(); k++) p.load_set(k, q); for (auto& z : q) { a.number(z.x); a.number(z.y); } a.number(p.size_of_tail()); }});
    }
};
// the same operations with other settings (used where the settings of two calls in a row matter)
template<class E> static inline void more_settings(std::vector<Op>& r) {
    using namespace boofcv; typedef typename TypeInfo<E>::signed_type S; std::string t = std::string("<") + type_name<E>() + ">"; typedef typename std::conditional<std::is_integral<E>::value && sizeof(E) < 4, S32, E>::type R;
    struct G { double sigma; int width; }; static const G gs[] = {{0.7, 5}, {2.0, 5}, {-1, 5}, {0.7, 4}, {1.1, -1}, {2.0, -1}, {1.0, 3}, {2.5, 7}};
    for (auto& g : gs) { std::string n = " sigma " + std::to_string(g.sigma) + " width " + std::to_string(g.width); G q = g;
        r.push_back({"BlurImageOps::gaussian" + t + n, [=](Args& a) { auto& i = a.in<E>(); auto& o = a.out<E>(); BlurImageOps::gaussian(i, o, q.sigma, q.width, a.work<E>()); }});
        r.push_back({"gaussian kernels" + t + n, [=](Args& a) { auto k = FactoryKernel::gaussian1D<S>(q.sigma, q.width); for (uint32_t i = 0; i < k.width; i++) a.number((double)k[i]); auto d = FactoryKernel::gaussian2D<S>(q.sigma, q.width); for (uint32_t i = 0; i < d.width * d.width; i++) a.number((double)d.data[i]); }}); }
    for (uint32_t w : {3u, 5u}) for (uint32_t o = 0; o < w; o += 2) { std::string n = " other weights, width " + std::to_string(w) + " origin " + std::to_string(o);
        auto k = [=] { Kernel1D<S> k(w, o); for (uint32_t i = 0; i < w; i++) k[i] = (S)(i == o ? 4 : 1 + (i * 7) % 3); return k; };
        for (int b : {(int)RB_EXTENDED, (int)RB_VALUE}) { r.push_back({"ConvolveImage::horizontal" + t + n + " " + border_name[b], [=](Args& a) { auto bd = make_border<E>(b, (E)31); bd->setImage(a.in<E>()); ConvolveImage::horizontal(k(), *bd, a.out<R>()); }});
            r.push_back({"ConvolveImage::vertical" + t + n + " " + border_name[b], [=](Args& a) { auto bd = make_border<E>(b, (E)31); bd->setImage(a.in<E>()); ConvolveImage::vertical(k(), *bd, a.out<R>()); }}); }
        r.push_back({"ConvolveNormalized::horizontal" + t + n, [=](Args& a) { auto& i = a.in<E>(); ConvolveNormalized::horizontal(k(), i, a.out<E>()); }});
        r.push_back({"ConvolveNormalized::vertical" + t + n, [=](Args& a) { auto& i = a.in<E>(); ConvolveNormalized::vertical(k(), i, a.out<E>()); }}); }
    for (int down = 0; down < 2; down++) { std::string n = down ? " other settings, down" : " other settings, up";
        r.push_back({"ThresholdOps::threshold" + t + n, [=](Args& a) { auto& i = a.in<E>(2); ThresholdOps::threshold(i, (E)60, down, a.out<U8>()); }});
        r.push_back({"computeOtsu" + t + n, [=](Args& a) { auto& i = a.in<E>(2); for (int hi : {255, 300}) if (hi < 256 || sizeof(E) > 1) a.number((double)ThresholdOps::computeOtsu(i, (E)0, (E)hi, down)); }});
        r.push_back({"ThresholdOps::localMean" + t + n, [=](Args& a) { auto& i = a.in<E>(2); auto& q = a.out<U8>(); auto& s = a.work<E>(); ThresholdOps::localMean(i, q, ConfigLength::relative(0.5, 2), 1.1f, down, s, a.work<E>()); }});
        for (int local = 0; local < 2; local++) { std::string m = n + (local ? " local" : " single");
            r.push_back({"ThresholdBlockMean" + t + m, [=](Args& a) { auto& i = a.in<E>(2); ThresholdBlockMean<E> f(ConfigLength::relative(0.5, 2), local, 1.1, down); f.process(i, a.out<U8>()); }});
            r.push_back({"ThresholdBlockMinMax" + t + m, [=](Args& a) { auto& i = a.in<E>(2); ThresholdBlockMinMax<E> f(5, ConfigLength::relative(0.5, 2), local, 1.1f, down); f.process(i, a.out<U8>()); }});
            r.push_back({"ThresholdBlockOtsu" + t + m, [=](Args& a) { auto& i = a.in<E>(2); ThresholdBlockOtsu<E> f(down, ConfigLength::relative(0.5, 2), 2, 0.9, down, local); f.process(i, a.out<U8>()); }}); } }
    r.push_back({"histogram" + t + " other size", [=](Args& a) { auto& i = a.in<E>(2); GrowArray<uint32_t> g(300); g.fill(9); ImageStatistics::histogram(i, (E)0, g); for (uint32_t k = 0; k < 300; k++) a.number(g[k]); }});
    r.push_back({"fill" + t + " other value", [=](Args& a) { ImageMiscOps::fill(a.out<E>(), (E)99); ImageMiscOps::fill_uniform(a.out<E>(), (E)0, (E)50, *std::make_shared<std::mt19937>(77)); }});
}
static inline void more_binary(std::vector<Op>& r) {
    using namespace boofcv;
    for (int eight = 0; eight < 2; eight++) for (int set = 0; set < 3; set++) r.push_back({std::string("contours with limits, ") + (eight ? "8" : "4") + "-connect " + std::to_string(set), [=](Args& a) {
        auto& i = a.in<U8>(1); LinearContourLabelChang2004 f(eight ? EIGHT : FOUR); f.minContourSize = set == 0 ? 3 : 0; f.maxContourSize = set == 1 ? 4 : 10000; f.saveInternalContours = set != 2; f.process(i, a.out<S32>()); a.number((double)f.contours.size()); std::vector<Point2D<S32>> p;
        for (auto& q : f.contours) { a.number(q.id); f.packedPoints.load_set(q.externalIndex, p); a.number((double)p.size()); for (auto& z : p) { a.number(z.x); a.number(z.y); } for (uint32_t k : q.internalIndexes) { f.packedPoints.load_set(k, p); a.number((double)p.size()); } } }});
    for (int o2 = 0; o2 < 2; o2++) for (int len : {4, 256}) r.push_back({"ComputeOtsu " + std::to_string(o2) + " length " + std::to_string(len), [=](Args& a) { ComputeOtsu o(o2, 0.5, len == 4, 0.9); GrowArray<uint32_t> g(len); uint32_t n = 0; for (int i = 0; i < len; i++) n += g[i] = (uint32_t)(i * 7 % 5 + a.w); o.compute(g, n); a.number(o.threshold); a.number(o.variance); }});
}
static inline std::vector<Op> all_ops() { std::vector<Op> r; Ops<U8>::numeric(r); Ops<S16>::numeric(r); Ops<F32>::numeric(r); Ops<U8>::binary(r); return r; }
static inline std::vector<Op> more_ops() { std::vector<Op> r = all_ops(); more_settings<U8>(r); more_settings<S16>(r); more_settings<F32>(r); more_binary(r); return r; }
// runs an operation; a refusal is an outcome like any other
static inline void run_op(const Op& op, Args& a) { try { op.run(a); } catch (std::exception&) { a.threw = true; } catch (const char*) { a.threw = true; } a.finish(); }
#endif
