// A small replacement for the thread sanitizer's runtime.  Code compiled with -fsanitize=thread calls __tsan_* around each
// memory access; this runtime records the accesses of two threads or controls in which order the threads perform them.
#ifndef VERIF_TSAN_RT_H
#define VERIF_TSAN_RT_H
#include <stdint.h>
#include <stddef.h>
struct RtAccess { uintptr_t addr; uint32_t size; uint32_t write; };
enum { RT_OFF = 0, RT_RECORD_FOREIGN = 1, RT_RECORD_ALL = 2, RT_SCHEDULE = 3 };
const uint32_t RT_LOG = 1u << 21, RT_PHASES = 4, RT_SET = 1u << 16;
struct RtShared {                           // shared with the explorer
    uint32_t count[2], overflow[2]; RtAccess log[2][RT_LOG];
    uint32_t visible_seen[2]; int free_run; int phase_reached;
};
void rt_setup();                            // once, before any fork
RtShared* rt_shared();
void* rt_pool_slot(uint32_t slot, size_t* size);    // memory at the same address in all processes, for shared inputs
// runs f[0] and f[1] (either may be null) in two threads under the given mode
void rt_run(int mode, void (*const f[2])(void*), void* const arg[2]);
void rt_run_sequential(int mode, void (*const f[2])(void*), void* const arg[2], int first);
void rt_set_visible(const uintptr_t* granules, uint32_t n);         // granules of 8 bytes where a thread switch may happen
void rt_set_plan(int start, const uint32_t* pos, int n);            // phase i ends just before visible access number pos[i] of its thread
struct RtPause { int saved; RtPause(); ~RtPause(); };               // harness code inside a thread that is not observed
#endif
