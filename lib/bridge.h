// bridge.h - calls of the native methods on a simulated Java machine, each with the monitors of that machine checked
#ifndef VERIF_BRIDGE_H
#define VERIF_BRIDGE_H
#include "util.h"
#include "fakejvm.h"
#include <dlfcn.h>
using jvm::Jvm; using jvm::Obj; using jvm::Val;
template<class E> constexpr char elem_code() { return sizeof(E) == 1 ? 'B' : sizeof(E) == 2 ? 'S' : std::is_floating_point<E>::value ? 'F' : 'I'; }
template<class E> const char* image_class() { return sizeof(E) == 1 ? "boofcv/struct/image/GrayU8" : sizeof(E) == 2 ? "boofcv/struct/image/GrayS16" : std::is_floating_point<E>::value ? "boofcv/struct/image/GrayF32" : "boofcv/struct/image/GrayS32"; }
constexpr int JLAYOUTS = 4;         // 0 tight, 1 odd start, odd stride and a tail, 2 wide stride and nothing behind the last pixel, 3 odd start, tight stride
struct Bridge {
    mc::Ctx& c; Jvm j; std::string what;
    Bridge(mc::Ctx& c, bool copies) : c(c) { j.copies = copies; }
    static void* find(mc::Ctx& c, const char* name) {
        static std::map<std::string, void*> known; auto it = known.find(name); if (it == known.end()) it = known.insert({name, dlsym(RTLD_DEFAULT, name)}).first;
        if (!it->second) c.fail("missing-method", "the bridge has no native method %s", name);
        return it->second;
    }
    // calls a native method; afterwards nothing may be held, no rule may have been broken and no C++ exception may have come out
    template<class R, class... A> R call(const char* name, Obj* self, A... args) {
        typedef R (*F)(JNIEnv*, jobject, A...); F f = (F)find(c, name); struct End { Jvm& j; ~End() { j.end_call(); } } end{j};
        std::string esc; j.begin(); jobject me = j.ref(self); j.last_self = self; c.step();
        try { Finish<R> fin{*this, name}; return fin.run([&]() { fault::Within w; return f(j.e(), me, args...); }); }
        catch (mc::Violation&) { throw; } catch (mc::Known&) { throw; }
        catch (std::exception& e) { esc = e.what(); } catch (const char* e) { esc = e; } catch (...) { esc = "unknown type"; }
        c.fail("exception-escaped", "%s: a C++ exception (%s) left the native method %s%s%s", what.c_str(), esc.c_str(), name, j.fault_what.empty() ? "" : " when ", j.fault_what.c_str());
    }
    void after(const char* name) {
        c.s->checks.fetch_add(1, std::memory_order_relaxed);
        const char* when = j.fault_what.empty() ? "" : " when "; const char* fw = j.fault_what.c_str();
        if (!j.misuse.empty()) c.fail(j.misuse_sig.c_str(), "%s: in %s%s%s: %s", what.c_str(), name, when, fw, j.misuse.c_str());
        if (!j.held.empty()) c.fail("not-released", "%s: %s%s%s returned without releasing %zu Java array(s), the first one a %s", what.c_str(), name, when, fw, j.held.size(), j.held[0].arr->cls->name.c_str());
    }
    template<class R> struct Finish { Bridge& b; const char* n; template<class G> R run(G g) { R r = g(); b.note(r); b.after(n); return r; } };
    template<class R> void note(R) {} void note(jobject o) { j.last_object = o ? j.deref(o, "return value") : nullptr; }
    jobject ref(Obj* o) { return j.ref(o); }
    // releases of one array in the last call: exactly one (or none when it was never obtained), in the right mode
    void released(Obj* arr, bool output, const char* which, bool must) {
        int n = 0; jint mode = -1; for (auto& r : j.released) if (r.arr == arr) { n++; mode = r.mode; }
        if (must && n == 0) c.fail("not-released", "%s: the %s array was not obtained and released", what.c_str(), which);
        if (n > 1) c.fail("released-twice", "%s: the %s array was released %d times", what.c_str(), which, n);
        if (n == 1 && output && mode != 0) c.fail("release-mode", "%s: the %s array was released without copying it back", what.c_str(), which);
        if (n == 1 && !output && mode != JNI_ABORT) c.fail("release-mode", "%s: the %s array was released with copying it back", what.c_str(), which);
    }
};
template<> struct Bridge::Finish<void> { Bridge& b; const char* n; template<class G> void run(G g) { g(); b.after(n); } };

// a Java gray image
template<class E> struct JImg {
    Bridge& b; Obj* img; Obj* arr; uint32_t w, h, start, stride; std::vector<uint8_t> before;
    JImg(Bridge& b, uint32_t w, uint32_t h, int layout, uint32_t seed) : b(b), w(w), h(h) {
        start = layout == 1 ? 3 : layout == 3 ? 5 : 0; stride = layout == 1 ? w + 2 : layout == 2 ? w + 1 : w; uint32_t tail = layout == 1 ? 4 : 0;
        uint32_t len = start + (h ? stride * (h - 1) + w : 0) + tail;
        img = b.j.make(image_class<E>()); arr = b.j.array(elem_code<E>(), (int)len); img->get("data").o = arr;
        img->get("width").j = w; img->get("height").j = h; img->get("stride").j = stride; img->get("startIndex").j = start; garbage_fill(seed);
    }
    void garbage_fill(uint32_t seed) { uint32_t s = seed * 2654435761u + 99; for (int i = 0; i < arr->len; i++) arr->as<E>()[i] = garbage<E>(s); arm(); }
    void arm() { before.assign(arr->data, arr->data + arr->bytes()); }
    E& px(uint32_t x, uint32_t y) { return arr->as<E>()[start + y * stride + x]; }
    void set(const std::vector<E>& v) { for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) px(x, y) = v[y * w + x]; arm(); }
    bool fields_ok() { return img->get("data").o == arr && img->get("width").j == w && img->get("height").j == h && img->get("stride").j == stride && img->get("startIndex").j == start; }
    void check_unchanged(const char* which) {
        if (!fields_ok()) b.c.fail("input-changed", "%s: the fields of the %s image were changed", b.what.c_str(), which);
        for (size_t i = 0; i < before.size(); i++) if (before[i] != arr->data[i]) b.c.fail("input-changed", "%s: the %s array was changed at element %zu", b.what.c_str(), which, i / sizeof(E));
    }
    void check_outside(const char* which) {
        if (!fields_ok()) b.c.fail("output-fields", "%s: the fields of the %s image were changed", b.what.c_str(), which);
        for (int i = 0; i < arr->len; i++) {
            int r = i - (int)start; if (r >= 0 && stride && r / stride < h && r % stride < w) continue;
            if (memcmp(arr->data + i * sizeof(E), before.data() + i * sizeof(E), sizeof(E))) b.c.fail("stray-write", "%s: the %s array was changed at element %d, outside of the image", b.what.c_str(), which, i);
        }
    }
    void check(const std::vector<E>& want, const char* which, const char* sig = "result") {
        check_outside(which); b.c.s->checks.fetch_add(want.size(), std::memory_order_relaxed);
        for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) if (memcmp(&px(x, y), &want[y * w + x], sizeof(E)))
            b.c.fail(sig, "%s: pixel (%u,%u) of the %ux%u %s image is %.9g in Java, the library gives %.9g", b.what.c_str(), x, y, w, h, which, dv(px(x, y)), dv(want[y * w + x]));
    }
};
#endif
