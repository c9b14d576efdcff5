// see tsan_rt.h; this file is not instrumented and uses nothing of the standard C++ library
#include "tsan_rt.h"
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <new>
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*); extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
#define pthread_mutex_lock_real __real_pthread_mutex_lock
#define pthread_mutex_unlock_real __real_pthread_mutex_unlock
namespace {
pthread_mutex_t guard_mu = PTHREAD_MUTEX_INITIALIZER;
const size_t ARENA = 512u << 20, STACK = 8u << 20, POOL_SLOT = 1u << 16, POOL_SLOTS = 1024;
struct Role { char* arena; volatile size_t used; char* stack; uintptr_t cache[1 << 14]; volatile uint64_t progress; volatile uint32_t visible; volatile int done, started; };
Role roles[2]; char* pool; RtShared* sh; int mode; uintptr_t* set_tab; int start_role; uint32_t plan[RT_PHASES]; int plan_n; volatile int phase; volatile int turn; volatile int free_run;
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
__thread int role = -1; __thread int quiet = 0;
bool in(uintptr_t a, const char* lo, size_t n) { return a >= (uintptr_t)lo && a < (uintptr_t)lo + n; }
bool in_set(uintptr_t g) { uint32_t h = (uint32_t)((g * 0x9e3779b97f4a7c15ull) >> 40) & (RT_SET - 1); while (set_tab[h]) { if (set_tab[h] == g) return true; h = (h + 1) & (RT_SET - 1); } return false; }
// waits until it is this thread's turn; when the other thread makes no progress (it is blocked by this one), both run
void wait_turn(int r) {
    uint64_t seen = roles[1 - r].progress; int idle = 0;
    while (turn != r && !free_run) {
        timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += 50000000; if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
        pthread_cond_timedwait(&cv, &mu, &t);
        if (roles[1 - r].progress != seen) { seen = roles[1 - r].progress; idle = 0; } else if (turn != r && ++idle >= 40) { free_run = 1; sh->free_run = 1; pthread_cond_broadcast(&cv); }
    }
}
void sched_point(int r) {
    pthread_mutex_lock_real(&mu);
    while (!free_run && phase < plan_n && turn == r && (start_role + phase) % 2 == r && roles[r].visible >= plan[phase]) {
        phase++; sh->phase_reached = phase; if (roles[1 - r].done) break;
        turn = 1 - r; pthread_cond_broadcast(&cv); wait_turn(r);
    }
    if (!free_run && turn != r) wait_turn(r);
    roles[r].visible++; sh->visible_seen[r] = roles[r].visible; pthread_mutex_unlock_real(&mu);
}
inline void access(const void* p, size_t n, int write) {
    int r = role; if (r < 0 || quiet || mode == RT_OFF) return; uintptr_t a = (uintptr_t)p; Role& R = roles[r]; R.progress++;
    if (in(a, R.stack, STACK)) return;
    if (mode == RT_SCHEDULE) { if (n == 0 || free_run) return; uintptr_t g0 = a >> 3, g1 = (a + n - 1) >> 3; if (g1 - g0 > 4096) g1 = g0 + 4096; for (uintptr_t g = g0; g <= g1; g++) if (in_set(g)) { quiet++; sched_point(r); quiet--; return; } return; }
    if (mode == RT_RECORD_FOREIGN && in(a, R.arena, ARENA)) return;
    uintptr_t key = (a << 1) ^ ((uintptr_t)n << 52) ^ (uintptr_t)write; uintptr_t& slot = R.cache[((a >> 1) ^ (a >> 12) ^ n * 7 ^ write) & ((1 << 14) - 1)]; if (slot == key) return; slot = key;
    uint32_t& c = sh->count[r]; if (c >= RT_LOG) { sh->overflow[r] = 1; return; } RtAccess& l = sh->log[r][c++]; l.addr = a; l.size = (uint32_t)n; l.write = (uint32_t)write;
}
void* arena_alloc(size_t n, size_t al) {
    Role& R = roles[role]; if (al < 16) al = 16; size_t at = (R.used + 16 + al - 1) / al * al; if (at + n + 16 > ARENA) { fprintf(stderr, "ERROR: arena full\n"); abort(); }
    *(size_t*)(R.arena + at - 16) = n; memset(R.arena + at, 0xbe, n); R.used = at + n; return R.arena + at;
}
bool in_arena(void* p) { return in((uintptr_t)p, roles[0].arena, ARENA) || in((uintptr_t)p, roles[1].arena, ARENA); }
struct Job { int r; void (*f)(void*); void* a; bool gated; };
void* thread_main(void* v) {
    Job* j = (Job*)v; role = j->r;
    if (j->gated) { pthread_mutex_lock_real(&mu); roles[j->r].started = 1; wait_turn(j->r); pthread_mutex_unlock_real(&mu); }
    j->f(j->a); int r = role; role = -1;
    if (j->gated) { pthread_mutex_lock_real(&mu); roles[r].done = 1; roles[r].progress++; turn = 1 - r; if (phase < plan_n) phase = plan_n; pthread_cond_broadcast(&cv); pthread_mutex_unlock_real(&mu); }
    return nullptr;
}
void start(pthread_t* t, Job* j) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, roles[j->r].stack, STACK); if (pthread_create(t, &at, thread_main, j)) { perror("pthread_create"); abort(); } pthread_attr_destroy(&at); }
void reset(int m) { mode = m; memset(roles[0].cache, 0, sizeof roles[0].cache); memset(roles[1].cache, 0, sizeof roles[1].cache); for (auto& R : roles) { R.done = 0; R.visible = 0; R.progress = 0; R.started = 0; } for (int r = 0; r < 2; r++) sh->count[r] = sh->overflow[r] = sh->visible_seen[r] = 0; sh->free_run = 0; sh->phase_reached = 0; free_run = 0; phase = 0; }
}
void rt_setup() {
    if (sh) return; sh = (RtShared*)mmap(nullptr, sizeof(RtShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (auto& R : roles) { R.arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); R.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    pool = (char*)mmap(nullptr, POOL_SLOT * POOL_SLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); set_tab = (uintptr_t*)mmap(nullptr, RT_SET * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
RtShared* rt_shared() { return sh; }
void* rt_pool_slot(uint32_t s, size_t* n) { if (s >= POOL_SLOTS) abort(); *n = POOL_SLOT; return pool + s * POOL_SLOT; }
void rt_run(int m, void (*const f[2])(void*), void* const arg[2]) {
    reset(m); pthread_t t[2]; Job j[2]; turn = start_role; for (int r = 0; r < 2; r++) if (!f[r]) roles[r].done = 1; if (!f[start_role]) turn = 1 - start_role;
    for (int r = 0; r < 2; r++) if (f[r]) { j[r].r = r; j[r].f = f[r]; j[r].a = arg[r]; j[r].gated = true; start(&t[r], &j[r]); } for (int r = 0; r < 2; r++) if (f[r]) pthread_join(t[r], nullptr); mode = RT_OFF;
}
void rt_run_sequential(int m, void (*const f[2])(void*), void* const arg[2], int first) {
    reset(m); for (int i = 0; i < 2; i++) { int r = i ? 1 - first : first; if (!f[r]) continue; pthread_t t; Job j{r, f[r], arg[r], false}; start(&t, &j); pthread_join(t, nullptr); } mode = RT_OFF;
}
void rt_set_visible(const uintptr_t* g, uint32_t n) { memset(set_tab, 0, RT_SET * sizeof(uintptr_t)); for (uint32_t i = 0; i < n && i < RT_SET / 2; i++) { uint32_t h = (uint32_t)((g[i] * 0x9e3779b97f4a7c15ull) >> 40) & (RT_SET - 1); while (set_tab[h] && set_tab[h] != g[i]) h = (h + 1) & (RT_SET - 1); set_tab[h] = g[i]; } }
void rt_set_plan(int s, const uint32_t* p, int n) { start_role = s; plan_n = n; for (int i = 0; i < n; i++) plan[i] = p[i]; }
RtPause::RtPause() { quiet++; saved = role; role = -1; } RtPause::~RtPause() { role = saved; quiet--; }

// the running thread can't go on before the other one did something: lets the other one run
static void yield_to_other() {
    int r = role; if (r < 0 || mode != RT_SCHEDULE) { sched_yield(); return; }
    pthread_mutex_lock_real(&mu); if (!free_run && !roles[1 - r].done) { turn = 1 - r; pthread_cond_broadcast(&cv); wait_turn(r); } else { pthread_mutex_unlock_real(&mu); sched_yield(); return; } pthread_mutex_unlock_real(&mu);
}
extern "C" {
// blocking operations of the code under test, made cooperative
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { access(m, sizeof(long), 1); while (pthread_mutex_trylock(m) != 0) yield_to_other(); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock_real(m); access(m, sizeof(long), 1); return r; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {     // only the address is used
    static pthread_mutex_t own = PTHREAD_MUTEX_INITIALIZER; static struct { pthread_once_t* o; int state; } tab[256]; access(o, 4, 1);
    for (;;) { int act = 0; pthread_mutex_lock_real(&own); for (auto& t : tab) { if (t.o == o) { act = t.state; break; } if (!t.o) { t.o = o; t.state = 1; act = 3; break; } } pthread_mutex_unlock_real(&own);
        if (act == 2) return 0; if (act == 3) { f(); pthread_mutex_lock_real(&own); for (auto& t : tab) if (t.o == o) t.state = 2; pthread_mutex_unlock_real(&own); access(o, 4, 1); return 0; } yield_to_other(); }
}
int __wrap___cxa_guard_acquire(uint8_t* g) {
    access(g, 1, 1); for (;;) { pthread_mutex_lock_real(&guard_mu); int act = g[0] ? 0 : g[1] ? 2 : 1; if (act == 1) g[1] = 1; pthread_mutex_unlock_real(&guard_mu); if (act < 2) return act; yield_to_other(); }
}
void __wrap___cxa_guard_release(uint8_t* g) { pthread_mutex_lock_real(&guard_mu); g[1] = 0; __atomic_store_n(&g[0], 1, __ATOMIC_SEQ_CST); pthread_mutex_unlock_real(&guard_mu); access(g, 1, 1); }
void __wrap___cxa_guard_abort(uint8_t* g) { pthread_mutex_lock_real(&guard_mu); g[1] = 0; pthread_mutex_unlock_real(&guard_mu); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, 0); } void __tsan_write##n(void* p) { access(p, n, 1); } void __tsan_unaligned_read##n(void* p) { access(p, n, 0); } void __tsan_unaligned_write##n(void* p) { access(p, n, 1); } void __tsan_volatile_read##n(void* p) { access(p, n, 0); } void __tsan_volatile_write##n(void* p) { access(p, n, 1); } void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, 0); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, 1); } void __tsan_vptr_read(void** p) { access(p, 8, 0); }
void __tsan_read_range(void* p, size_t n) { access(p, n, 0); } void __tsan_write_range(void* p, size_t n) { access(p, n, 1); }
#define ATOMIC(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { access((void*)p, sizeof(T), 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { access((void*)p, sizeof(T), 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access((void*)p, sizeof(T), 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access((void*)p, sizeof(T), 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access((void*)p, sizeof(T), 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access((void*)p, sizeof(T), 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access((void*)p, sizeof(T), 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access((void*)p, sizeof(T), 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { access((void*)p, sizeof(T), 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), 1); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), 1); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access((void*)p, sizeof(T), 1); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); } void __tsan_atomic_signal_fence(int) {}
// memory functions called by the code under test (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, 0); access(d, n, 1); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, 1); return __real_memset(d, v, n); }
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { return role >= 0 ? arena_alloc(n, 16) : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { if (role < 0) return __real_calloc(n, m); void* p = arena_alloc(n * m, 16); __real_memset(p, 0, n * m); return p; }
void __wrap_free(void* p) { if (!p) return; if (in_arena(p)) { access(p, *(size_t*)((char*)p - 16), 1); __real_memset(p, 0xdd, *(size_t*)((char*)p - 16)); } else __real_free(p); }
void* __wrap_realloc(void* p, size_t n) { if (role < 0 && !in_arena(p)) return __real_realloc(p, n); void* q = __wrap_malloc(n); if (p) { if (in_arena(p)) { size_t o = *(size_t*)((char*)p - 16); __real_memcpy(q, p, o < n ? o : n); } else __real_memcpy(q, p, n); __wrap_free(p); } return q; }
}
void* operator new(size_t n) { void* p = __wrap_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); } void operator delete[](void* p) noexcept { __wrap_free(p); } void operator delete(void* p, size_t) noexcept { __wrap_free(p); } void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
