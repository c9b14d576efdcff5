// chang.h - the Java side of the contour finder: its containers, and what they must hold after a call
#ifndef VERIF_CHANG_H
#define VERIF_CHANG_H
#include "bridge.h"
#include "contour.h"
#define CHANG(m) "Java_org_boofcpp_contour_NativeChang2004_" m
struct Chang {
    Bridge& b; Obj* self; Obj* points; Obj* packed; Obj* blocks; Obj* sets; Obj* four; Obj* eight;
    // capacity: elements storagePoints.data has at first; size: what it claims to hold
    Chang(Bridge& b, int capacity, int size, int blocks_before, int sets_before, int block_length = 4000) : b(b) {
        Jvm& j = b.j; self = j.make("org/boofcpp/contour/NativeChang2004"); points = j.make("org/ddogleg/struct/GrowQueue_I32");
        Obj* d = j.array('I', capacity); for (int i = 0; i < capacity; i++) d->as<jint>()[i] = -5 - i; points->get("data").o = d; points->get("size").j = size;
        packed = j.make("boofcv/struct/PackedSetsPoint2D_I32"); packed->get("blockLength").j = block_length;
        blocks = j.make("org/ddogleg/struct/FastQueue"); blocks->block_length = block_length; sets = j.make("org/ddogleg/struct/FastQueue"); packed->get("blocks").o = blocks; packed->get("sets").o = sets;
        for (int i = 0; i < blocks_before; i++) blocks->items.push_back(j.array('I', block_length)); blocks->get("size").j = blocks_before;
        for (int i = 0; i < sets_before; i++) sets->items.push_back(j.make("boofcv/struct/BlockIndexLength")); sets->get("size").j = sets_before;
        self->get("storagePoints").o = points; self->get("packedPoints").o = packed;
        jvm::Cls* rc = j.classes.at("boofcv/struct/ConnectRule"); Obj* m = j.mirror(rc);
        four = m->get("FOUR").o; eight = m->get("EIGHT").o; if (four) return;          // the enum exists once
        four = j.permanent("boofcv/struct/ConnectRule"); four->get("value").j = 0; eight = j.permanent("boofcv/struct/ConnectRule"); eight->get("value").j = 1; m->get("FOUR").o = four; m->get("EIGHT").o = eight;
    }
    // NativeChang2004.process() of the Java class clears its own containers before the native call
    void java_reset() { jvm::contour_log().clear(); blocks->get("size").j = 0; sets->get("size").j = 0; }
    void process(JImg<U8>& in, JImg<S32>& label) { java_reset(); b.call<void>(CHANG("native_1process"), self, b.ref(in.img), b.ref(label.img)); }
    // the points of a set the way PackedSetsPoint2D_I32 reads them
    bool read(int set, std::vector<std::pair<int, int>>& r) {
        if (set >= sets->get("size").j) return false; Obj* s = sets->items[set]; int at = (int)s->get("start").j, n = (int)s->get("length").j, blk = (int)s->get("block").j, bl = (int)packed->get("blockLength").j, nb = (int)blocks->get("size").j;
        for (int i = 0; i < n; i++, at += 2) {
            if (at >= bl) { at = 0; blk++; }
            if (at < 0 || at % 2 || blk < 0 || blk >= nb) return false;
            jint* d = blocks->items[blk]->as<jint>(); r.push_back({d[at], d[at + 1]});
        }
        return true;
    }
    void compare(boofcv::LinearContourLabelChang2004& lib) {
        mc::Ctx& c = b.c; std::vector<jvm::ContourRecord> want; for (size_t i = 0; i < lib.contours.size(); i++) { auto& p = lib.contours[i]; want.push_back({(int)p.id, (int)p.externalIndex, std::vector<int>(p.internalIndexes.begin(), p.internalIndexes.end())}); }
        auto& got = jvm::contour_log(); c.s->checks.fetch_add(want.size() + 1, std::memory_order_relaxed);
        if (got.size() != want.size()) c.fail("blobs", "%s: Java was told of %zu blobs, the library found %zu", b.what.c_str(), got.size(), want.size());
        for (size_t i = 0; i < want.size(); i++) if (!(got[i] == want[i]))
            c.fail("blobs", "%s: blob %zu in Java is id %d external %d with %zu internal contours%s, the library has id %d external %d with %zu", b.what.c_str(), i, got[i].id, got[i].external, got[i].internal.size(), got[i].internal.size() == want[i].internal.size() ? " (other indexes)" : "", want[i].id, want[i].external, want[i].internal.size());
        uint32_t n = lib.packedPoints.number_of_sets(); if ((uint32_t)sets->get("size").j != n) c.fail("sets", "%s: Java has %d contours, the library %u", b.what.c_str(), (int)sets->get("size").j, n);
        std::vector<boofcv::Point2D<S32>> pts;
        for (uint32_t s = 0; s < n; s++) {
            std::vector<std::pair<int, int>> r; bool ok = read(s, r); pts.clear(); lib.packedPoints.load_set(s, pts);
            c.s->checks.fetch_add(pts.size(), std::memory_order_relaxed);
            if (!ok) c.fail("place", "%s: contour %u of the Java storage (start %d, length %d, block %d) lies outside of its %d blocks", b.what.c_str(), s, (int)sets->items[s]->get("start").j, (int)sets->items[s]->get("length").j, (int)sets->items[s]->get("block").j, (int)blocks->get("size").j);
            if (r.size() != pts.size()) c.fail("length", "%s: contour %u has %zu points in Java and %zu in the library", b.what.c_str(), s, r.size(), pts.size());
            for (size_t i = 0; i < pts.size(); i++) if (r[i].first != pts[i].x || r[i].second != pts[i].y) c.fail("point", "%s: point %zu of contour %u is (%d,%d) in Java and (%d,%d) in the library", b.what.c_str(), i, s, r[i].first, r[i].second, pts[i].x, pts[i].y);
        }
    }
};
#endif
