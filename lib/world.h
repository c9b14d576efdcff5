// A pool of images, kernels, borders, filters and containers, and a list of legal and illegal calls on it (C26, C39).
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include "fault.h"
#include "threshold_block_filters.h"
#include "border_ref.h"
#include "binary_ops.h"
#include "image_blur.h"
#include "convolve.h"
#include "convolve_kernels.h"
#include "contour.h"
#include "image_statistics.h"
#include "image_misc_ops.h"
#include "image_convert.h"
#include "packed_sets.h"
#include "sanity_checks.h"
#include <functional>
using namespace boofcv;
typedef std::vector<double> R;
template<class E> struct World {
    typedef typename TypeInfo<E>::signed_type S; typedef typename std::conditional<std::is_integral<E>::value && sizeof(E) < 4, S32, E>::type O;
    // inputs
    Img<E> a, small, view, tiny; Img<U8> bin, bin2, binview; Img<E> inter, interview;
    // outputs
    Gray<E> out, work, work2; Img<E> vout, vwork; Gray<U8> bout; Img<U8> bvout; Gray<S32> labels; Img<S32> vlabels; Gray<O> cout; Img<O> cvout; Interleaved<E> iout; Planar<Gray<E>> planar, planar2;
    // objects
    ThresholdBlockMean<E> mean; ThresholdBlockMinMax<E> minmax; ThresholdBlockOtsu<E> otsu; LocalMeanBinaryFilter<E> local; GlobalOtsuBinaryFilter<E> global; LinearContourLabelChang2004 chang; ThresholdBlockMean<E> zero; ThresholdBlockOtsu<E> relative; LocalMeanBinaryFilter<E> unset; ComputeOtsu compute;
    Kernel1D<S> k; Kernel2D<S> kk; GrowArray<uint32_t> grow; uint32_t memory[6]; GrowArray<uint32_t> wrapped; PackedSet<int> set;
    std::vector<std::pair<Img<E>*, std::vector<E>>> inputs; std::vector<std::pair<Img<U8>*, std::vector<U8>>> binputs;
    World() : a(6, 5, 0, 1), small(3, 4, 0, 2), view(6, 5, 2, 3), tiny(2, 2, 1, 4), bin(6, 5, 0, 5), bin2(4, 4, 0, 6), binview(6, 5, 3, 7), inter(4, 3, 0, 8, 3), interview(4, 3, 2, 9, 3),
        out(3, 3), vout(6, 5, 2, 10), vwork(3, 4, 3, 11), bout(2, 7), bvout(6, 5, 2, 12), labels(2, 2), vlabels(6, 5, 2, 13), cout(2, 2), cvout(6, 5, 2, 14), iout(2, 2, 2), planar(3, 2, 2), planar2(4, 3, 3),
        mean(ConfigLength::fixed(3), true, 1.0, true), minmax(10, ConfigLength::fixed(3), true, 1.0f, false), otsu(true, ConfigLength::fixed(3), 0, 1.0, true, true), local(ConfigLength::fixed(3), 1.0f, true), global((E)0, (E)255, true), chang(EIGHT),
        zero(ConfigLength::fixed(0), true, 1.0, true), relative(false, ConfigLength::relative(-1, -5), 0, 1.0, true, false), unset(ConfigLength(), 1.0f, true), compute(false, 0.1, true, 1.0), k(3, 1), kk(3, 1), grow(4), wrapped(memory, 6, 6), set(3) {
        for (auto* p : {&a, &small, &view, &tiny, &inter, &interview}) { std::vector<E> v = pixels<E>(p->w * p->h * p->bands, 1, p->w * 9 + p->layout); for (auto& e : v) e = (E)((int64_t)(e * 4) & 255); p->set(v); inputs.push_back({p, v}); }
        for (auto* p : {&bin, &bin2, &binview}) { std::vector<U8> v(p->w * p->h); for (size_t i = 0; i < v.size(); i++) v[i] = (U8)((0x5b7e3d >> (i % 23)) & 1); p->set(v); binputs.push_back({p, v}); }
        for (int i = 0; i < 3; i++) k[i] = (S)(1 + i); for (int i = 0; i < 9; i++) kk.at(i % 3, i / 3) = (S)(1 + i % 4); for (int i = 0; i < 6; i++) memory[i] = 7 + i; grow.fill(5);
        for (int i = 0; i < 5; i++) { if (i % 2 == 0) set.start_new_set(); set.push_tail(i * 3); }
    }
    template<class T> static R px(const Gray<T>& g) { fault::Pause q; R r{(double)g.width, (double)g.height}; for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) r.push_back((double)g.at(x, y)); return r; }
    template<class T> static R px(const Interleaved<T>& g) { fault::Pause q; R r{(double)g.width, (double)g.height, (double)g.num_bands}; for (uint32_t y = 0; y < g.height; y++) for (uint32_t x = 0; x < g.width; x++) for (uint32_t b = 0; b < g.num_bands; b++) r.push_back((double)g.at(x, y, b)); return r; }
    static R px(Planar<Gray<E>>& g) { fault::Pause pause; R r{(double)g.width, (double)g.height, (double)g.num_bands}; for (uint32_t b = 0; b < g.num_bands; b++) { R q = px(g.getBand(b)); r.insert(r.end(), q.begin(), q.end()); } return r; }
    std::string problem() {
        std::string s; auto look = [&](const char* n, auto& im) { if (s.empty() && (!im.shape_ok() || im.stray() >= 0)) s = std::string(im.shape_ok() ? "memory around view '" : "shape or memory of '") + n + "' was changed"; };
        look("a", a); look("small", small); look("view", view); look("tiny", tiny); look("bin", bin); look("bin2", bin2); look("binview", binview); look("inter", inter); look("interview", interview); look("vout", vout); look("vwork", vwork); look("bvout", bvout); look("vlabels", vlabels); look("cvout", cvout);
        for (auto& p : inputs) if (s.empty()) { auto v = p.first->get(); if (memcmp(v.data(), p.second.data(), v.size() * sizeof(E))) s = "an input image was changed"; }
        for (auto& p : binputs) if (s.empty() && p.first->get() != p.second) s = "a binary input image was changed";
        return s;
    }
    // state that no illegal call may change, whatever it is called on
    R containers() { R r; for (uint32_t i = 0; i < grow.size; i++) r.push_back(grow[i]); r.push_back(-1); for (uint32_t i = 0; i < wrapped.size; i++) r.push_back(wrapped[i]); r.push_back(wrapped.size); for (int i = 0; i < 6; i++) r.push_back(memory[i]);
        std::vector<int> q; for (uint32_t i = 0; i < set.number_of_sets(); i++) { set.load_set(i, q); r.push_back((double)q.size()); } for (int v : q) r.push_back(v); for (uint32_t i = 0; i < k.width; i++) r.push_back(k[i]); r.push_back(k.offset); for (uint32_t i = 0; i < kk.width * kk.width; i++) r.push_back(kk.data[i]); r.push_back(kk.offset);
        for (auto v : {px(iout), px(planar), px(planar2)}) r.insert(r.end(), v.begin(), v.end()); return r; }
};
template<class E> struct Call { const char* name; bool legal; std::function<R(World<E>&)> f; };
template<class E> static R blobs(World<E>& w, Gray<S32>& l, Img<U8>& b) {
    w.chang.process(b.g(), l); fault::Pause pause; R r = World<E>::px(l); std::vector<Point2D<S32>> p; for (auto& q : w.chang.contours) { r.push_back(q.id); w.chang.packedPoints.load_set(q.externalIndex, p); for (uint32_t i : q.internalIndexes) w.chang.packedPoints.load_set(i, p); } for (auto& z : p) { r.push_back(z.x); r.push_back(z.y); } return r;
}
template<class E> static const std::vector<Call<E>>& calls() {
    typedef World<E> W; typedef typename W::S S; static std::vector<Call<E>> r; if (!r.empty()) return r;
    auto legal = [&](const char* n, std::function<R(W&)> f) { r.push_back({n, true, f}); };
    auto illegal = [&](const char* n, std::function<void(W&)> f) { r.push_back({n, false, [f](W& w) { f(w); return R(); }}); };
    // --- legal calls; each returns everything it computes ---
    legal("threshold a -> out", [](W& w) { ThresholdOps::threshold(w.a.g(), (E)100, true, w.bout); return W::px(w.bout); });
    legal("threshold small -> out", [](W& w) { ThresholdOps::threshold(w.small.g(), (E)90, false, w.bout); return W::px(w.bout); });
    legal("threshold view -> view", [](W& w) { ThresholdOps::threshold(w.view.g(), (E)90, false, w.bvout.g()); return W::px(w.bvout.g()); });
    legal("block mean", [](W& w) { w.bout.reshape(6, 5); w.mean.process(w.a.g(), w.bout); return W::px(w.bout); });
    legal("block mean small", [](W& w) { w.bout.reshape(3, 4); w.mean.process(w.small.g(), w.bout); return W::px(w.bout); });
    legal("block min-max view", [](W& w) { w.minmax.process(w.view.g(), w.bvout.g()); return W::px(w.bvout.g()); });
    legal("block Otsu", [](W& w) { w.bout.reshape(6, 5); w.otsu.process(w.a.g(), w.bout); return W::px(w.bout); });
    legal("local mean", [](W& w) { w.local.process(w.a.g(), w.bout); return W::px(w.bout); });
    legal("local mean small", [](W& w) { w.local.process(w.small.g(), w.bout); return W::px(w.bout); });
    legal("global Otsu", [](W& w) { w.global.process(w.view.g(), w.bout); return W::px(w.bout); });
    legal("mean blur", [](W& w) { BlurImageOps::mean(w.a.g(), w.out, 2, w.work); return W::px(w.out); });
    legal("mean blur view", [](W& w) { BlurImageOps::mean(w.view.g(), w.vout.g(), 1, w.work); return W::px(w.vout.g()); });
    legal("Gaussian blur", [](W& w) { BlurImageOps::gaussian(w.small.g(), w.out, 1.2, -1, w.work2); return W::px(w.out); });
    legal("normalised convolution", [](W& w) { w.out.reshape(6, 5); ConvolveNormalized::horizontal(w.k, w.a.g(), w.out); return W::px(w.out); });
    legal("normalised separable", [](W& w) { ConvolveNormalized::convolve(w.k, w.a.g(), w.out, w.work); return W::px(w.out); });
    legal("convolution", [](W& w) { auto b = make_border<E>(RB_EXTENDED, (E)0); b->setImage(w.a.g()); ConvolveImage::convolve(w.kk, *b, w.cout); return W::px(w.cout); });
    legal("convolution view", [](W& w) { auto b = make_border<E>(RB_REFLECT, (E)0); b->setImage(w.view.g()); ConvolveImage::horizontal(w.k, *b, w.cvout.g()); return W::px(w.cvout.g()); });
    legal("logic and", [](W& w) { BinaryImageOps::logicAnd(w.bin.g(), w.binview.g(), w.bout); return W::px(w.bout); });
    legal("erode", [](W& w) { BinaryImageOps::erode4(w.bin2.g(), w.bout); return W::px(w.bout); });
    legal("dilate view", [](W& w) { BinaryImageOps::dilate4(w.binview.g(), w.bvout.g()); return W::px(w.bvout.g()); });
    legal("contours", [](W& w) { return blobs(w, w.labels, w.bin); });
    legal("contours 4x4", [](W& w) { return blobs(w, w.labels, w.bin2); });
    legal("contours view", [](W& w) { return blobs(w, w.vlabels.g(), w.binview); });
    legal("average bands", [](W& w) { convert_average(w.inter.i(), w.out); return W::px(w.out); });
    legal("ComputeOtsu", [](W& w) { GrowArray<uint32_t> h(256); ImageStatistics::histogram(w.a.g(), (E)0, h); w.compute.compute(h, 30); return R{w.compute.threshold}; });
    // --- illegal calls ---
    illegal("block mean, wrong output shape", [](W& w) { w.bout.reshape(5, 6); w.mean.process(w.a.g(), w.bout); });
    illegal("block mean, image smaller than a block", [](W& w) { w.bout.reshape(2, 2); w.mean.process(w.tiny.g(), w.bout); });
    illegal("block min-max, wrong output shape (view)", [](W& w) { w.minmax.process(w.small.g(), w.bvout.g()); });
    illegal("block min-max, image smaller than a block", [](W& w) { w.bout.reshape(2, 2); w.minmax.process(w.tiny.g(), w.bout); });
    illegal("block Otsu, wrong output shape", [](W& w) { w.bout.reshape(6, 4); w.otsu.process(w.a.g(), w.bout); });
    illegal("block Otsu, image smaller than a block", [](W& w) { w.bout.reshape(2, 2); w.otsu.process(w.tiny.g(), w.bout); });
    illegal("block filter of width 0", [](W& w) { w.bout.reshape(6, 5); w.zero.process(w.a.g(), w.bout); });
    illegal("block filter of unspecified width", [](W& w) { w.bout.reshape(6, 5); w.relative.process(w.a.g(), w.bout); });
    illegal("local mean of unspecified width", [](W& w) { w.unset.process(w.a.g(), w.bout); });
    illegal("local mean of width 1", [](W& w) { ThresholdOps::localMean(w.a.g(), w.bout, ConfigLength::fixed(1), 1.0f, true, w.work, w.work2); });
    illegal("local mean into another view", [](W& w) { w.local.process(w.small.g(), w.bvout.g()); });
    illegal("local mean, work view of another shape", [](W& w) { ThresholdOps::localMean(w.a.g(), w.bout, ConfigLength::fixed(3), 1.0f, true, w.work, w.vwork.g()); });
    illegal("threshold into another view", [](W& w) { ThresholdOps::threshold(w.small.g(), (E)90, true, w.bvout.g()); });
    illegal("global Otsu into another view", [](W& w) { w.global.process(w.small.g(), w.bvout.g()); });
    illegal("mean blur of radius 0", [](W& w) { BlurImageOps::mean(w.a.g(), w.out, 0, w.work); });
    illegal("mean blur into another view", [](W& w) { BlurImageOps::mean(w.small.g(), w.vout.g(), 1, w.work); });
    illegal("mean blur, work view of another shape", [](W& w) { BlurImageOps::mean(w.a.g(), w.out, 1, w.vwork.g()); });
    illegal("Gaussian blur without sigma and width", [](W& w) { BlurImageOps::gaussian(w.a.g(), w.out, -1, -1, w.work); });
    illegal("Gaussian blur without sigma and width (0)", [](W& w) { BlurImageOps::gaussian(w.a.g(), w.out, 0, 0, w.work); });
    illegal("Gaussian blur into another view", [](W& w) { BlurImageOps::gaussian(w.small.g(), w.vout.g(), 1, 3, w.work); });
    illegal("Gaussian blur, work view of another shape", [](W& w) { BlurImageOps::gaussian(w.a.g(), w.out, 1, 3, w.vwork.g()); });
    illegal("horizontal mean, wrong output shape", [](W& w) { w.out.reshape(5, 5); ConvolveImageMean::horizontal(w.a.g(), w.out, 1); });
    illegal("vertical mean, wrong output shape", [](W& w) { w.out.reshape(6, 6); ConvolveImageMean::vertical(w.a.g(), w.out, 1); });
    illegal("normalised horizontal, wrong output shape", [](W& w) { w.out.reshape(5, 6); ConvolveNormalized::horizontal(w.k, w.a.g(), w.out); });
    illegal("normalised vertical, wrong output shape", [](W& w) { ConvolveNormalized::vertical(w.k, w.small.g(), w.vout.g()); });
    illegal("normalised separable into another view", [](W& w) { ConvolveNormalized::convolve(w.k, w.small.g(), w.vout.g(), w.work); });
    illegal("convolution into another view", [](W& w) { auto b = make_border<E>(RB_WRAP, (E)0); b->setImage(w.small.g()); ConvolveImage::convolve(w.kk, *b, w.cvout.g()); });
    illegal("horizontal convolution into another view", [](W& w) { auto b = make_border<E>(RB_ZERO, (E)0); b->setImage(w.small.g()); ConvolveImage::horizontal(w.k, *b, w.cvout.g()); });
    illegal("vertical convolution into another view", [](W& w) { auto b = make_border<E>(RB_VALUE, (E)3); b->setImage(w.small.g()); ConvolveImage::vertical(w.k, *b, w.cvout.g()); });
    illegal("logic and of different shapes", [](W& w) { BinaryImageOps::logicAnd(w.bin.g(), w.bin2.g(), w.bout); });
    illegal("logic or of different shapes", [](W& w) { BinaryImageOps::logicOr(w.bin2.g(), w.binview.g(), w.bout); });
    illegal("logic or into another view", [](W& w) { BinaryImageOps::logicOr(w.bin2.g(), w.bin2.g(), w.bvout.g()); });
    illegal("erode into another view", [](W& w) { BinaryImageOps::erode4(w.bin2.g(), w.bvout.g()); });
    illegal("dilate into another view", [](W& w) { BinaryImageOps::dilate4(w.bin2.g(), w.bvout.g()); });
    illegal("contours into another view", [](W& w) { w.chang.process(w.bin2.g(), w.vlabels.g()); });
    illegal("contour tracer with an unknown rule", [](W&) { ContourTracer f((ConnectRule)17); });
    illegal("average bands into another view", [](W& w) { convert_average(w.inter.i(), w.vout.g()); });
    illegal("unknown border type", [](W&) { FactoryImageBorder::create_SB<E>((BorderType)55); });
    illegal("kernel with its origin outside", [](W&) { Kernel1D<S> k(3, 3); });
    illegal("2D kernel with its origin outside", [](W&) { Kernel2D<S> k(3, 7); });
    illegal("ragged 2D kernel", [](W&) { Kernel2D<S> k(1, {{1, 2, 3}, {1, 2}, {1, 2, 3}}); });
    illegal("2D kernel access outside", [](W& w) { w.kk.at(3, 0); });
    illegal("Gaussian kernel without sigma and width", [](W&) { FactoryKernel::gaussian1D<S>(-1, -1); });
    illegal("2D Gaussian kernel without sigma and width", [](W&) { FactoryKernel::gaussian2D<F32>(0, 0); });
    illegal("length without a value", [](W&) { ConfigLength(-1, -1).checkValidity(); });
    illegal("ragged image", [](W&) { Gray<E> g{{1, 2}, {3}}; });
    illegal("pixel outside", [](W& w) { w.a.g().at(6, 0); });
    illegal("pixel outside a view", [](W& w) { w.view.g().at(0, 5); });
    illegal("reshape a view", [](W& w) { w.vout.g().reshape(5, 6); });
    illegal("copy another shape into a view", [](W& w) { w.vout.g().copy(w.small.g()); });
    illegal("assign another shape to a view", [](W& w) { w.vout.g() = w.small.g(); });
    illegal("sub-image outside", [](W& w) { w.a.g().makeSubimage(2, 2, 7, 3); });
    illegal("sub-image with swapped corners", [](W& w) { w.view.g().makeSubimage(3, 3, 2, 4); });
    illegal("interleaved pixel outside", [](W& w) { w.inter.i().at(0, 0, 3); });
    illegal("interleaved view: other bands", [](W& w) { w.interview.i().setNumberOfBands(2); });
    illegal("interleaved view: other shape", [](W& w) { w.interview.i().reshape(3, 4); });
    illegal("interleaved view: other shape and bands", [](W& w) { w.interview.i().reshape(4, 3, 4); });
    illegal("interleaved view: copy another shape", [](W& w) { w.interview.i().setTo(w.iout); });
    illegal("interleaved sub-image with swapped corners", [](W& w) { w.inter.i().makeSubimage(2, 0, 1, 1); });
    illegal("interleaved sub-image outside", [](W& w) { w.inter.i().makeSubimage(0, 0, 5, 1); });
    illegal("band that does not exist", [](W& w) { w.planar.getBand(2); });
    illegal("grow memory it does not own", [](W& w) { w.wrapped.grow_array(2); });
    illegal("resize memory it does not own", [](W& w) { w.wrapped.resize(9); });
    illegal("growable array access outside", [](W& w) { w.grow.at(4); });
    illegal("element past the end of a set", [](W& w) { w.set.at(0, 2); });
    illegal("set that does not exist", [](W& w) { std::vector<int> v; w.set.load_set(5, v); });
    illegal("overwrite a set with another length", [](W& w) { w.set.write_set(0, {1, 2, 3}); });
    illegal("different shapes", [](W& w) { checkSameShape(w.a.g(), w.small.g()); });
    illegal("third shape different", [](W& w) { checkSameShape(w.a.g(), w.view.g(), w.tiny.g()); });
    return r;
}
#endif
