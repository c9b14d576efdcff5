// fakejvm.h - a Java environment for native methods: classes, objects, arrays and the JNI function table, with
//  - both behaviours a real machine may show for arrays (hand out a copy, or the array itself),
//  - the JNI rules as monitors (no call while an exception is pending or a critical array is held, releases match, ids fit),
//  - a failure injected at any chosen step that may fail.
// A broken rule is recorded, not thrown: native code may catch everything.
#ifndef VERIF_FAKEJVM_H
#define VERIF_FAKEJVM_H
#include "fault.h"
#include <jni.h>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace jvm {
struct Obj; struct Jvm;
struct Val { int64_t j = 0; double d = 0; Obj* o = nullptr; };
struct Member { struct Cls* cls; std::string name, sig; bool is_static; std::function<Val(Jvm&, Obj*, const Val*)> code; };
struct Cls {
    std::string name; std::vector<std::unique_ptr<Member>> fields, methods;
    void field(const char* n, const char* s, bool st = false) { fields.emplace_back(new Member{this, n, s, st, nullptr}); }
    void method(const char* n, const char* s, std::function<Val(Jvm&, Obj*, const Val*)> f) { methods.emplace_back(new Member{this, n, s, false, f}); }
    static Member* find(std::vector<std::unique_ptr<Member>>& v, const char* n, const char* s, bool st) { for (auto& m : v) if (m->name == n && m->sig == s && m->is_static == st) return m.get(); return nullptr; }
};
struct Obj {
    Cls* cls = nullptr; std::vector<std::pair<const char*, Val>> f; Cls* mirror = nullptr;
    char elem = 0; int len = 0; uint8_t* data = nullptr;                    // arrays: B S I F J D
    std::vector<Obj*> items; int block_length = 0;                          // java.util-like containers
    ~Obj() { free(data); }
    static bool same(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a == *b; }
    Val& get(const char* n) { for (auto& p : f) if (same(n, p.first)) return p.second; fprintf(stderr, "fakejvm: no field %s\n", n); abort(); }
    template<class T> T* as() { return (T*)data; }
    static int size_of(char e) { return e == 'B' || e == 'Z' ? 1 : e == 'S' || e == 'C' ? 2 : e == 'I' || e == 'F' ? 4 : 8; }
    size_t bytes() const { return (size_t)len * size_of(elem); }
};
struct Ref { Obj* o; bool live; bool global; };
struct Held { Obj* arr; void* p; bool critical; bool copy; char kind; };
struct Released { Obj* arr; jint mode; };
enum { LOOKUP = 1, CALL = 1, OBJECT = 1, ARRAY = 2 };                       // number of ways a step can fail

struct Jvm {
    JNINativeInterface_ table; JNIEnv_ env;
    std::map<std::string, Cls*> classes;
    std::vector<std::unique_ptr<Obj>> objs; std::vector<Ref*> refs; std::vector<size_t> frames;
    static std::map<Cls*, Obj*>& mirrors() { static auto* m = new std::map<Cls*, Obj*>; return *m; }     // classes are loaded once and stay, so native code may keep them
    static size_t& globals() { static size_t n = 0; return n; }
    bool copies = true;                                                     // arrays are handed out as copies
    Obj* pending = nullptr; std::string pending_what; int criticals = 0;
    std::vector<Held> held; std::vector<Released> released;
    std::string misuse, misuse_sig; std::vector<std::string> log; bool logging = false;
    std::vector<int> steps;                                                 // ways each fallible step of the call could have failed
    std::vector<std::pair<int, int>> faults; int faults_hit = 0; std::string fault_what;
    uint64_t calls = 0; size_t local_refs = 0, max_local_refs = 0; Obj* last_self = nullptr; Obj* last_object = nullptr;

    static Jvm& of(JNIEnv* e) { return *(Jvm*)e->functions->reserved0; }
    void bad(const char* sig, const std::string& what) { if (misuse.empty()) { misuse_sig = sig; misuse = what; } }
    // ----- objects
    Obj* raw() { objs.emplace_back(new Obj); return objs.back().get(); }
    Obj* make(const std::string& cls) {
        Obj* o = raw(); o->cls = classes.at(cls); o->f.reserve(o->cls->fields.size());
        for (auto& m : o->cls->fields) if (!m->is_static) o->f.push_back({m->name.c_str(), Val()});
        return o;
    }
    Obj* permanent(const std::string& cls) { Obj* o = make(cls); objs.back().release(); objs.pop_back(); return o; }
    Obj* array(char elem, int len) {
        Obj* o = raw(); o->elem = elem; o->len = len; o->cls = classes.at(std::string("[") + elem);
        o->data = (uint8_t*)malloc(o->bytes() ? o->bytes() : 1); memset(o->data, 0, o->bytes());
        return o;
    }
    Obj* mirror(Cls* c) { auto& m = mirrors()[c]; if (!m) { m = new Obj; m->mirror = c; m->cls = classes.at("java/lang/Class"); for (auto& s : c->fields) if (s->is_static) m->f.push_back({s->name.c_str(), Val()}); } return m; }
    // local references come from a ring, so that one which outlives its call is recognised for a long time
    static Ref* slot() { static const size_t N = 1 << 20; static Ref* ring = (Ref*)calloc(N, sizeof(Ref)); static size_t at = 0; for (size_t i = 0; i < N; i++) { Ref* r = ring + at++ % N; if (!r->live) return r; } fprintf(stderr, "ERROR: fakejvm: out of references\n"); abort(); }
    jobject ref(Obj* o) { fault::Pause quiet; if (!o) return nullptr; Ref* r = slot(); *r = Ref{o, true, false}; refs.push_back(r); local_refs++; if (local_refs > max_local_refs) max_local_refs = local_refs; return (jobject)r; }
    Obj* deref(jobject r, const char* fn) { fault::Pause quiet;
        if (!r) { bad("null-object", std::string(fn) + " was called with a null object"); return nullptr; }
        Ref* x = (Ref*)r; if (!x->live) { bad("dead-reference", std::string(fn) + " was called with a released reference"); return nullptr; }
        return x->o;
    }
    void raise(const char* what) { pending = (Obj*)1; pending_what = what; }
    // ----- native call frames
    void begin() { steps.clear(); faults_hit = 0; released.clear(); fault_what.clear(); }
    void end_call() { for (auto& r : refs) r->live = false; refs.clear(); frames.clear(); local_refs = 0; }
    // ----- checks made on entry of every function
    void enter(const char* fn, bool pending_ok = false, bool critical_ok = false) { fault::Pause quiet;
        calls++; if (logging) log.push_back(fn);
        if (pending && !pending_ok) bad("pending-exception", std::string(fn) + " was called while a Java exception is pending");
        if (criticals && !critical_ok) bad("call-in-critical", std::string(fn) + " was called while a critical array is held");
    }
    int fallible(int ways, const char* fn, const char* detail = "") {
        int k = (int)steps.size(); steps.push_back(ways);
        for (auto& f : faults) if (f.first == k) { faults_hit++; fault_what += std::string(fn) + "(" + detail + ") fails; "; return f.second + 1; }
        return 0;
    }
    Member* id(void* m, const char* fn, const char* sig, bool st, Obj* o) {
        if (!m) { bad("null-id", std::string(fn) + " was called with a null id"); return nullptr; }
        Member* f = (Member*)m;
        bool ok = f->is_static == st && (*sig == 'L' ? f->sig[0] == 'L' || f->sig[0] == '[' : f->sig == sig);
        if (ok && o) ok = st ? o->mirror == f->cls : o->cls == f->cls;
        if (!ok) { bad("wrong-id", std::string(fn) + " was called with the id of " + f->cls->name + "." + f->name + " " + f->sig); return nullptr; }
        return f;
    }
    Jvm(); ~Jvm() { end_call(); for (auto& h : held) if (h.copy) free(h.p); }
    Jvm(const Jvm&) = delete;
    JNIEnv* e() { return &env; }
};
inline std::vector<std::unique_ptr<Cls>>& all_classes();

// ----- the JNI functions
namespace fn {
inline jclass FindClass(JNIEnv* e, const char* n) {
    fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("FindClass"); if (j.fallible(LOOKUP, "FindClass", n)) { j.raise("NoClassDefFoundError"); return nullptr; }
    auto it = j.classes.find(n); if (it == j.classes.end()) { j.raise("NoClassDefFoundError"); return nullptr; }
    return (jclass)j.ref(j.mirror(it->second));
}
inline jclass GetObjectClass(JNIEnv* e, jobject o) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("GetObjectClass"); Obj* x = j.deref(o, "GetObjectClass"); return x ? (jclass)j.ref(j.mirror(x->cls)) : nullptr; }
inline void* lookup(JNIEnv* e, jclass c, const char* n, const char* s, const char* f, bool method, bool st) {
    fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter(f); if (j.fallible(LOOKUP, f, n)) { j.raise("NoSuchFieldError"); return nullptr; }
    Obj* x = j.deref(c, f); if (!x) return nullptr; if (!x->mirror) { j.bad("not-a-class", std::string(f) + " was called with an object that is no class"); return nullptr; }
    Member* m = Cls::find(method ? x->mirror->methods : x->mirror->fields, n, s, st);
    if (!m) j.raise("NoSuchFieldError");
    return m;
}
inline jfieldID GetFieldID(JNIEnv* e, jclass c, const char* n, const char* s) { return (jfieldID)lookup(e, c, n, s, "GetFieldID", false, false); }
inline jfieldID GetStaticFieldID(JNIEnv* e, jclass c, const char* n, const char* s) { return (jfieldID)lookup(e, c, n, s, "GetStaticFieldID", false, true); }
inline jmethodID GetMethodID(JNIEnv* e, jclass c, const char* n, const char* s) { return (jmethodID)lookup(e, c, n, s, "GetMethodID", true, false); }
inline Val* field(JNIEnv* e, jobject o, jfieldID f, const char* name, const char* sig, bool st = false) {
    fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter(name); Obj* x = j.deref(o, name); if (!x) return nullptr; Member* m = j.id(f, name, sig, st, x); return m ? &x->get(m->name.c_str()) : nullptr;
}
#define FIELD(T, N, SIG, MEM) \
    inline T Get##N##Field(JNIEnv* e, jobject o, jfieldID f) { Val* v = field(e, o, f, "Get" #N "Field", SIG); return v ? (T)v->MEM : (T)0; } \
    inline void Set##N##Field(JNIEnv* e, jobject o, jfieldID f, T x) { Val* v = field(e, o, f, "Set" #N "Field", SIG); if (v) v->MEM = x; } \
    inline T GetStatic##N##Field(JNIEnv* e, jclass o, jfieldID f) { Val* v = field(e, o, f, "GetStatic" #N "Field", SIG, true); return v ? (T)v->MEM : (T)0; }
FIELD(jboolean, Boolean, "Z", j) FIELD(jbyte, Byte, "B", j) FIELD(jshort, Short, "S", j) FIELD(jchar, Char, "C", j) FIELD(jint, Int, "I", j) FIELD(jlong, Long, "J", j) FIELD(jfloat, Float, "F", d) FIELD(jdouble, Double, "D", d)
#undef FIELD
inline jobject GetObjectField(JNIEnv* e, jobject o, jfieldID f) {
    fault::Pause quiet; Jvm& j = Jvm::of(e); Val* v = field(e, o, f, "GetObjectField", "L"); if (!v) return nullptr;
    if (j.fallible(OBJECT, "GetObjectField", ((Member*)f)->name.c_str())) return nullptr;
    return j.ref(v->o);
}
inline void SetObjectField(JNIEnv* e, jobject o, jfieldID f, jobject x) { Val* v = field(e, o, f, "SetObjectField", "L"); if (v) v->o = x ? Jvm::of(e).deref(x, "SetObjectField") : nullptr; }
inline jobject GetStaticObjectField(JNIEnv* e, jclass o, jfieldID f) {
    fault::Pause quiet; Jvm& j = Jvm::of(e); Val* v = field(e, o, f, "GetStaticObjectField", "L", true); if (!v) return nullptr;
    if (j.fallible(OBJECT, "GetStaticObjectField", ((Member*)f)->name.c_str())) return nullptr;
    return j.ref(v->o);
}
// calls
inline Val call(JNIEnv* e, jobject o, jmethodID m, const Val* args, const char* name, char ret) {
    fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter(name); Obj* x = j.deref(o, name); if (!x) return Val();
    if (!m) { j.bad("null-id", std::string(name) + " was called with a null id"); return Val(); }
    Member* k = (Member*)m; if (k->cls != x->cls) { j.bad("wrong-id", std::string(name) + ": " + k->cls->name + "." + k->name + " is no method of " + x->cls->name); return Val(); }
    char r = k->sig[k->sig.find(')') + 1]; if (r == '[') r = 'L'; if (r != ret) j.bad("wrong-call", std::string(name) + " cannot call " + k->name + k->sig);
    if (j.fallible(CALL, name, k->name.c_str())) { j.raise("RuntimeException in a Java method"); return Val(); }
    return k->code(j, x, args);
}
inline int parse(Jvm& j, jmethodID m, va_list a, const jvalue* v, Val* out) { fault::Pause quiet;
    if (!m) return 0; const std::string& s = ((Member*)m)->sig; int n = 0;
    for (size_t i = 1; s[i] != ')' && n < 8; i++, n++) {
        char t = s[i]; if (t == '[') { while (s[i] == '[') i++; if (s[i] == 'L') i = s.find(';', i); t = 'L'; } else if (t == 'L') i = s.find(';', i);
        switch (t) {
            case 'J': out[n].j = v ? v[n].j : va_arg(a, jlong); break;
            case 'F': out[n].d = v ? v[n].f : va_arg(a, double); break;
            case 'D': out[n].d = v ? v[n].d : va_arg(a, double); break;
            case 'L': { jobject o = v ? v[n].l : va_arg(a, jobject); out[n].o = o ? j.deref(o, "Call*Method") : nullptr; break; }
            case 'Z': out[n].j = v ? v[n].z : va_arg(a, int); break;
            case 'B': out[n].j = v ? v[n].b : va_arg(a, int); break;
            case 'S': out[n].j = v ? v[n].s : va_arg(a, int); break;
            default: out[n].j = v ? v[n].i : va_arg(a, jint);
        }
    }
    return n;
}
#define CALLS(T, N, R, CONV) \
    inline T Call##N##MethodV(JNIEnv* e, jobject o, jmethodID m, va_list a) { Val v[8]; parse(Jvm::of(e), m, a, nullptr, v); Val r = call(e, o, m, v, "Call" #N "Method", R); (void)r; return CONV; } \
    inline T Call##N##MethodA(JNIEnv* e, jobject o, jmethodID m, const jvalue* a) { Val v[8]; va_list none; memset(&none, 0, sizeof none); parse(Jvm::of(e), m, none, a, v); Val r = call(e, o, m, v, "Call" #N "Method", R); (void)r; return CONV; } \
    inline T Call##N##Method(JNIEnv* e, jobject o, jmethodID m, ...) { va_list a; va_start(a, m); Val v[8]; parse(Jvm::of(e), m, a, nullptr, v); va_end(a); Val r = call(e, o, m, v, "Call" #N "Method", R); (void)r; return CONV; }
CALLS(void, Void, 'V', ) CALLS(jobject, Object, 'L', Jvm::of(e).ref(r.o)) CALLS(jint, Int, 'I', (jint)r.j) CALLS(jboolean, Boolean, 'Z', (jboolean)r.j) CALLS(jlong, Long, 'J', (jlong)r.j) CALLS(jdouble, Double, 'D', r.d) CALLS(jfloat, Float, 'F', (jfloat)r.d)
#undef CALLS
// arrays
inline jsize GetArrayLength(JNIEnv* e, jarray a) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("GetArrayLength"); Obj* x = j.deref(a, "GetArrayLength"); if (!x) return 0; if (!x->elem) { j.bad("not-an-array", "GetArrayLength was called with an object that is no array"); return 0; } return x->len; }
inline void* acquire(Jvm& j, jarray a, jboolean* copy, const char* name, char elem, bool critical) { fault::Pause quiet;
    j.enter(name, false, critical); Obj* x = j.deref(a, name); if (!x) return nullptr;
    if (!x->elem || (elem && x->elem != elem)) { j.bad("not-an-array", std::string(name) + " was called with a " + x->cls->name); return nullptr; }
    if (int k = j.fallible(ARRAY, name, x->cls->name.c_str())) { if (k == 2) j.raise("OutOfMemoryError"); return nullptr; }
    void* p = x->data; if (j.copies) { p = malloc(x->bytes() ? x->bytes() : 1); memcpy(p, x->data, x->bytes()); }
    if (copy) *copy = j.copies;
    if (critical) j.criticals++;
    j.held.push_back({x, p, critical, j.copies, elem}); return p;
}
inline void release(Jvm& j, jarray a, void* p, jint mode, const char* name, char elem, bool critical) { fault::Pause quiet;
    j.enter(name, true, critical); Obj* x = j.deref(a, name); if (!x) return;
    if (mode != 0 && mode != JNI_ABORT && mode != JNI_COMMIT) { j.bad("bad-mode", std::string(name) + " was called with an unknown mode"); return; }
    for (size_t i = 0; i < j.held.size(); i++) {
        Held& h = j.held[i]; if (h.arr != x || h.p != p || h.critical != critical || (!critical && h.kind != elem)) continue;
        j.released.push_back({x, mode});
        if (h.copy && mode != JNI_ABORT) memcpy(x->data, p, x->bytes());
        if (mode == JNI_COMMIT) return;
        if (h.copy) free(p); if (critical) j.criticals--;
        j.held.erase(j.held.begin() + i); return;
    }
    j.bad("bad-release", std::string(name) + " was called with " + (p ? "a pointer" : "a null pointer") + " that was not obtained from this array, or was released before");
}
inline void* GetPrimitiveArrayCritical(JNIEnv* e, jarray a, jboolean* c) { return acquire(Jvm::of(e), a, c, "GetPrimitiveArrayCritical", 0, true); }
inline void ReleasePrimitiveArrayCritical(JNIEnv* e, jarray a, void* p, jint m) { release(Jvm::of(e), a, p, m, "ReleasePrimitiveArrayCritical", 0, true); }
inline void region(Jvm& j, jarray a, jsize s, jsize l, void* buf, bool set, const char* name, char elem) { fault::Pause quiet;
    j.enter(name); Obj* x = j.deref(a, name); if (!x) return; if (x->elem != elem) { j.bad("not-an-array", std::string(name) + " was called with a " + x->cls->name); return; }
    if (s < 0 || l < 0 || (int64_t)s + l > x->len) { j.raise("ArrayIndexOutOfBoundsException"); return; }
    size_t z = Obj::size_of(elem); if (set) memcpy(x->data + s * z, buf, l * z); else memcpy(buf, x->data + s * z, l * z);
}
#define ARRAYS(T, N, E) \
    inline T* Get##N##ArrayElements(JNIEnv* e, T##Array a, jboolean* c) { return (T*)acquire(Jvm::of(e), a, c, "Get" #N "ArrayElements", E, false); } \
    inline void Release##N##ArrayElements(JNIEnv* e, T##Array a, T* p, jint m) { release(Jvm::of(e), a, p, m, "Release" #N "ArrayElements", E, false); } \
    inline void Get##N##ArrayRegion(JNIEnv* e, T##Array a, jsize s, jsize l, T* b) { region(Jvm::of(e), a, s, l, b, false, "Get" #N "ArrayRegion", E); } \
    inline void Set##N##ArrayRegion(JNIEnv* e, T##Array a, jsize s, jsize l, const T* b) { region(Jvm::of(e), a, s, l, (void*)b, true, "Set" #N "ArrayRegion", E); }
ARRAYS(jbyte, Byte, 'B') ARRAYS(jshort, Short, 'S') ARRAYS(jint, Int, 'I') ARRAYS(jfloat, Float, 'F') ARRAYS(jlong, Long, 'J') ARRAYS(jdouble, Double, 'D') ARRAYS(jchar, Char, 'C') ARRAYS(jboolean, Boolean, 'Z')
#undef ARRAYS
// exceptions
inline jboolean ExceptionCheck(JNIEnv* e) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("ExceptionCheck", true); return j.pending != nullptr; }
inline jthrowable ExceptionOccurred(JNIEnv* e) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("ExceptionOccurred", true); return j.pending ? (jthrowable)j.ref(j.make("java/lang/RuntimeException")) : nullptr; }
inline void ExceptionDescribe(JNIEnv* e) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("ExceptionDescribe", true); j.pending = nullptr; }
inline void ExceptionClear(JNIEnv* e) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("ExceptionClear", true); j.pending = nullptr; }
inline jint Throw(JNIEnv* e, jthrowable t) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("Throw"); if (!j.deref(t, "Throw")) return -1; j.raise("Throw"); return 0; }
inline jint ThrowNew(JNIEnv* e, jclass c, const char* m) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("ThrowNew"); Obj* x = j.deref(c, "ThrowNew"); if (!x || !x->mirror) return -1; if (m) (void)strlen(m); j.raise(x->mirror->name.c_str()); return 0; }
// references and the rest
inline void DeleteLocalRef(JNIEnv* e, jobject o) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("DeleteLocalRef", true); if (o) { Ref* r = (Ref*)o; if (!r->live) j.bad("dead-reference", "DeleteLocalRef of a released reference"); else if (r->global) j.bad("dead-reference", "DeleteLocalRef of a global reference"); else { r->live = false; if (j.local_refs) j.local_refs--; } } }
inline jobject NewGlobalRef(JNIEnv* e, jobject o) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("NewGlobalRef"); Obj* x = o ? j.deref(o, "NewGlobalRef") : nullptr; if (!x) return nullptr; Jvm::globals()++; return (jobject)new Ref{x, true, true}; }
inline void DeleteGlobalRef(JNIEnv* e, jobject o) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("DeleteGlobalRef", true); if (o) { Ref* r = (Ref*)o; if (!r->live || !r->global) j.bad("dead-reference", "DeleteGlobalRef of something else"); else { r->live = false; Jvm::globals()--; } } }
inline jclass GetSuperclass(JNIEnv* e, jclass c) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("GetSuperclass"); return nullptr; }
inline jobject NewLocalRef(JNIEnv* e, jobject o) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("NewLocalRef"); return o ? j.ref(j.deref(o, "NewLocalRef")) : nullptr; }
inline jboolean IsSameObject(JNIEnv* e, jobject a, jobject b) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("IsSameObject"); Obj* x = a ? ((Ref*)a)->o : nullptr; Obj* y = b ? ((Ref*)b)->o : nullptr; return x == y; }
inline jboolean IsInstanceOf(JNIEnv* e, jobject a, jclass b) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("IsInstanceOf"); Obj* x = j.deref(a, "IsInstanceOf"); Obj* y = j.deref(b, "IsInstanceOf"); return x && y && x->cls == y->mirror; }
inline jint EnsureLocalCapacity(JNIEnv* e, jint) { Jvm::of(e).enter("EnsureLocalCapacity"); return 0; }
inline jint PushLocalFrame(JNIEnv* e, jint) { fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("PushLocalFrame"); j.frames.push_back(j.refs.size()); return 0; }
inline jobject PopLocalFrame(JNIEnv* e, jobject r) {
    fault::Pause quiet; Jvm& j = Jvm::of(e); j.enter("PopLocalFrame", true); if (j.frames.empty()) { j.bad("frame", "PopLocalFrame without PushLocalFrame"); return r; } Obj* o = r ? j.deref(r, "PopLocalFrame") : nullptr;
    for (size_t i = j.frames.back(); i < j.refs.size(); i++) if (j.refs[i]->live) { j.refs[i]->live = false; j.local_refs--; } j.frames.pop_back(); return o ? j.ref(o) : nullptr;
}
inline jint GetVersion(JNIEnv* e) { Jvm::of(e).enter("GetVersion"); return JNI_VERSION_1_8; }
inline void unsupported() { fprintf(stderr, "ERROR: fakejvm: this JNI function is not modelled\n"); abort(); }
} // namespace fn

inline Jvm::Jvm() {
    void (**t)() = (void (**)())&table; for (size_t i = 0; i < sizeof table / sizeof *t; i++) t[i] = fn::unsupported;
    table.reserved0 = this; env.functions = &table;
#define USE(F) table.F = fn::F;
    USE(FindClass) USE(GetObjectClass) USE(GetFieldID) USE(GetStaticFieldID) USE(GetMethodID) USE(GetObjectField) USE(SetObjectField) USE(GetStaticObjectField)
#define USEF(N) USE(Get##N##Field) USE(Set##N##Field) USE(GetStatic##N##Field)
    USEF(Boolean) USEF(Byte) USEF(Short) USEF(Char) USEF(Int) USEF(Long) USEF(Float) USEF(Double)
#define USEC(N) USE(Call##N##Method) USE(Call##N##MethodV) USE(Call##N##MethodA)
    USEC(Void) USEC(Object) USEC(Int) USEC(Boolean) USEC(Long) USEC(Double) USEC(Float)
    USE(GetArrayLength) USE(GetPrimitiveArrayCritical) USE(ReleasePrimitiveArrayCritical)
#define USEA(N) USE(Get##N##ArrayElements) USE(Release##N##ArrayElements) USE(Get##N##ArrayRegion) USE(Set##N##ArrayRegion)
    USEA(Byte) USEA(Short) USEA(Int) USEA(Float) USEA(Long) USEA(Double) USEA(Char) USEA(Boolean)
    USE(ExceptionCheck) USE(ExceptionOccurred) USE(ExceptionDescribe) USE(ExceptionClear) USE(Throw) USE(ThrowNew)
    USE(DeleteLocalRef) USE(NewLocalRef) USE(NewGlobalRef) USE(DeleteGlobalRef) USE(GetSuperclass) USE(IsSameObject) USE(IsInstanceOf) USE(EnsureLocalCapacity) USE(PushLocalFrame) USE(PopLocalFrame) USE(GetVersion)
#undef USE
#undef USEF
#undef USEC
#undef USEA
    for (auto& c : all_classes()) classes[c->name] = c.get();
}

// ----- the Java classes the bridge meets
struct ContourRecord { int id, external; std::vector<int> internal; bool operator==(const ContourRecord& o) const { return id == o.id && external == o.external && internal == o.internal; } };
inline std::vector<ContourRecord>& contour_log() { static std::vector<ContourRecord> v; return v; }
inline int& grow_slack() { static int v = 0; return v; }                    // extra elements a growing Java array gets
inline std::vector<std::unique_ptr<Cls>> build_classes() {
    std::vector<std::unique_ptr<Cls>> r;
    auto add = [&](const char* n) { r.emplace_back(new Cls); r.back()->name = n; return r.back().get(); };
    for (const char* n : {"java/lang/Class", "java/lang/RuntimeException", "java/lang/Exception", "java/lang/Error", "java/lang/IllegalArgumentException", "java/lang/IllegalStateException", "java/lang/OutOfMemoryError", "java/lang/NullPointerException", "[B", "[S", "[I", "[F", "[J", "[D"}) add(n);
    struct { const char* n; const char* d; } images[] = {{"boofcv/struct/image/GrayU8", "[B"}, {"boofcv/struct/image/GrayS16", "[S"}, {"boofcv/struct/image/GrayS32", "[I"}, {"boofcv/struct/image/GrayF32", "[F"}};
    for (auto& i : images) { Cls* c = add(i.n); c->field("data", i.d); for (const char* f : {"width", "height", "stride", "startIndex"}) c->field(f, "I"); }
    struct { const char* n; const char* d; } kernels[] = {{"boofcv/struct/convolve/Kernel1D_S32", "[I"}, {"boofcv/struct/convolve/Kernel1D_F32", "[F"}, {"boofcv/struct/convolve/Kernel2D_S32", "[I"}, {"boofcv/struct/convolve/Kernel2D_F32", "[F"}};
    for (auto& i : kernels) { Cls* c = add(i.n); c->field("data", i.d); c->field("width", "I"); c->field("offset", "I"); }
    Cls* l = add("boofcv/struct/ConfigLength"); l->field("length", "D"); l->field("fraction", "D");
    Cls* b = add("org/boofcpp/NativeBase"); b->field("isInteger", "Z"); b->field("nativePtr", "J"); b->field("inputBits", "I"); b->field("outputBits", "I");
    Cls* rule = add("boofcv/struct/ConnectRule"); rule->field("FOUR", "Lboofcv/struct/ConnectRule;", true); rule->field("EIGHT", "Lboofcv/struct/ConnectRule;", true); rule->field("value", "I");
    rule->method("ordinal", "()I", [](Jvm&, Obj* o, const Val*) { Val v; v.j = o->get("value").j; return v; });
    Cls* q = add("org/ddogleg/struct/GrowQueue_I32"); q->field("data", "[I"); q->field("size", "I");
    q->method("resize", "(I)V", [](Jvm& j, Obj* o, const Val* a) {
        int n = (int)a[0].j; if (n < 0) { j.raise("NegativeArraySizeException"); return Val(); }
        if (o->get("data").o->len < n) { Obj* d = j.array('I', n + grow_slack()); for (int i = 0; i < d->len; i++) d->as<jint>()[i] = -777 - i; o->get("data").o = d; }
        o->get("size").j = n; return Val(); });
    Cls* fq = add("org/ddogleg/struct/FastQueue");
    // block_length > 0: a queue of int arrays, otherwise a queue of BlockIndexLength; items beyond size stay allocated
    fq->field("size", "I");
    static const std::string bil_name = "boofcv/struct/BlockIndexLength";
    fq->method("resize", "(I)V", [](Jvm& j, Obj* o, const Val* a) {
        int n = (int)a[0].j; if (n < 0) { j.raise("NegativeArraySizeException"); return Val(); }
        while ((int)o->items.size() < n) o->items.push_back(o->block_length ? j.array('I', o->block_length) : j.make(bil_name));
        o->get("size").j = n; return Val(); });
    fq->method("get", "(I)Ljava/lang/Object;", [](Jvm& j, Obj* o, const Val* a) { Val v; if (a[0].j < 0 || a[0].j >= o->get("size").j) { j.raise("IllegalArgumentException"); return v; } v.o = o->items[a[0].j]; return v; });
    fq->method("size", "()I", [](Jvm&, Obj* o, const Val*) { return o->get("size"); });
    Cls* bil = add("boofcv/struct/BlockIndexLength"); for (const char* f : {"start", "length", "block"}) bil->field(f, "I");
    bil->method("set", "(III)V", [](Jvm&, Obj* o, const Val* a) { o->get("start").j = (jint)a[0].j; o->get("length").j = (jint)a[1].j; o->get("block").j = (jint)a[2].j; return Val(); });
    Cls* ps = add("boofcv/struct/PackedSetsPoint2D_I32"); ps->field("blockLength", "I"); ps->field("blocks", "Lorg/ddogleg/struct/FastQueue;"); ps->field("sets", "Lorg/ddogleg/struct/FastQueue;");
    Cls* ch = add("org/boofcpp/contour/NativeChang2004"); ch->field("nativePtr", "J"); ch->field("storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;"); ch->field("packedPoints", "Lboofcv/struct/PackedSetsPoint2D_I32;");
    ch->method("addContour", "(II)V", [](Jvm& j, Obj* o, const Val* a) {
        Obj* q = o->get("storagePoints").o; int n = (int)q->get("size").j; Obj* d = q->get("data").o; ContourRecord r{(int)a[0].j, (int)a[1].j, {}};
        if (n > d->len) { j.raise("ArrayIndexOutOfBoundsException"); return Val(); }
        r.internal.assign(d->as<jint>(), d->as<jint>() + n); contour_log().push_back(r); return Val(); });
    return r;
}
inline std::vector<std::unique_ptr<Cls>>& all_classes() { static std::vector<std::unique_ptr<Cls>> v = build_classes(); return v; }
} // namespace jvm
#endif
