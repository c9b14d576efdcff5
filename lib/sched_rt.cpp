// Linked into the native library of the Java bridge for C36.  The library is compiled with -fsanitize=thread, so that __tsan_* is
// called around each memory access: an access to the library's own static data is a scheduling point of verif.Sched.
// This file is not instrumented.
#include <jni.h>
#include <link.h>
#include <pthread.h>
#include <stdint.h>
#include <string.h>
namespace {
uintptr_t lo[8], hi[8]; int segs; JavaVM* vm; jclass sched; jmethodID mid; volatile int on;
__thread int held, inside, run_seen; __thread struct { uintptr_t pc; int n; } seen[512]; volatile int run;
int module(dl_phdr_info* i, size_t, void*) {
    uintptr_t self = (uintptr_t)&module; bool mine = false; uintptr_t rl = 0, rh = 0; for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; uintptr_t a = i->dlpi_addr + p.p_vaddr; if (p.p_type == PT_LOAD && self >= a && self < a + p.p_memsz) mine = true; if (p.p_type == PT_GNU_RELRO) { rl = a; rh = a + p.p_memsz; } }
    if (!mine) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue; uintptr_t a = i->dlpi_addr + p.p_vaddr, e = a + p.p_memsz; if (rl <= a && rh > a) a = rh; if (a < e && segs < 8) { lo[segs] = a; hi[segs++] = e; } } return 1;
}
void point(uintptr_t pc) {
    if (on < 3 || held || inside) return; if (run_seen != run) { run_seen = run; memset(seen, 0, sizeof seen); }
    uint32_t h = (uint32_t)((pc * 0x9e3779b97f4a7c15ull) >> 55) & 511; for (int k = 0; k < 512 && seen[h].n && seen[h].pc != pc; k++) h = (h + 1) & 511; seen[h].pc = pc; if (++seen[h].n > 3) return;
    inside = 1; JNIEnv* env = nullptr;
    if (vm->GetEnv((void**)&env, JNI_VERSION_1_6) == JNI_OK && env) { jthrowable t = env->ExceptionOccurred(); if (t) env->ExceptionClear(); env->CallStaticVoidMethod(sched, mid); if (t) { env->Throw(t); env->DeleteLocalRef(t); } }
    inside = 0;
}
// which of the two jobs, run alone before, read (1, 4) and wrote (2, 8) each granule of 8 bytes
const uint32_t TAB = 1 << 16; struct { uintptr_t g; int flags; } tab[TAB];
int& flags(uintptr_t g) { uint32_t h = (uint32_t)((g * 0x9e3779b97f4a7c15ull) >> 40) & (TAB - 1); for (uint32_t k = 0; k < TAB - 1 && tab[h].g && tab[h].g != g; k++) h = (h + 1) & (TAB - 1); tab[h].g = g; return tab[h].flags; }
inline void access(const volatile void* p, size_t n, bool write, void* pc) {
    if (!on || !n) return; uintptr_t a = (uintptr_t)p;
    for (int k = 0; k < segs; k++) if (a < hi[k] && a + n > lo[k]) {
        uintptr_t g = (a < lo[k] ? lo[k] : a) >> 3, e = ((a + n < hi[k] ? a + n : hi[k]) - 1) >> 3; if (e - g > 256) e = g + 256;
        for (; g <= e; g++) { int& f = flags(g); if (on < 3) f |= (write ? 2 : 1) << (on == 2 ? 2 : 0); else if (!f || ((f & 10) && (f & 3) && (f & 12))) { point((uintptr_t)pc); return; } }
        return;
    }
}
#define PC __builtin_return_address(0)
}
extern "C" {
JNIEXPORT void JNICALL Java_verif_Sched_attach(JNIEnv* env, jclass c) { if (sched) return; env->GetJavaVM(&vm); sched = (jclass)env->NewGlobalRef(c); mid = env->GetStaticMethodID(c, "point", "()V"); dl_iterate_phdr(module, nullptr); }
JNIEXPORT void JNICALL Java_verif_Sched_watch(JNIEnv*, jclass, jint m) { run++; if (m == 1) memset(tab, 0, sizeof tab); on = m; }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*, void (*)());
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
// no scheduling point while a lock is held: the other thread would wait for it where the scheduler can't see it
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point((uintptr_t)PC); int r = __real_pthread_mutex_lock(m); if (!r) held++; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); if (!r) held--; return r; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { access(o, sizeof *o, true, PC); held++; int r = __real_pthread_once(o, f); held--; return r; }
int __wrap___cxa_guard_acquire(uint64_t* g) { access(g, 8, false, PC); int r = __real___cxa_guard_acquire(g); if (r) held++; return r; }
void __wrap___cxa_guard_release(uint64_t* g) { __real___cxa_guard_release(g); held--; }
void __wrap___cxa_guard_abort(uint64_t* g) { __real___cxa_guard_abort(g); held--; }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); } void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
#define A(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { access(p, sizeof(T), false, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { access(p, sizeof(T), true, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access(p, sizeof(T), true, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access(p, sizeof(T), true, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access(p, sizeof(T), true, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access(p, sizeof(T), true, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access(p, sizeof(T), true, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access(p, sizeof(T), true, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access(p, sizeof(T), true, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access(p, sizeof(T), true, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access(p, sizeof(T), true, PC); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); } void __tsan_atomic_signal_fence(int) {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, true, PC); return __real_memset(d, v, n); }
}
