// fault.h - lets chosen memory allocations of the code under test fail
#ifndef VERIF_FAULT_H
#define VERIF_FAULT_H
#include <cstdint>
#include <cstddef>
namespace fault {
inline bool armed = false;          // inside a call of the library
inline int paused = 0;              // inside the harness although armed
inline uint64_t count = 0;          // allocations since armed
inline uint64_t at = ~0ull;         // number of the allocation that fails
inline bool all_later = false;      // ... and every one after it
inline uint64_t failed = 0;
inline size_t limit = (size_t)1 << 30;      // what the machine has
inline bool hit(size_t n) {
    if (!armed || paused) return false;
    uint64_t i = count++; bool f = n > limit || i == at || (all_later && i > at);
    if (f) failed++;
    return f;
}
inline void plan(uint64_t k, bool later) { count = failed = 0; at = k; all_later = later; }
#ifdef VERIF_FAULTS
struct Within { bool was; Within() : was(armed) { armed = true; } ~Within() { armed = was; } };
struct Pause { Pause() { paused++; } ~Pause() { paused--; } };
#else                               // programs without failing memory, among them those whose every access is scheduled
struct Within { Within() {} ~Within() {} };
struct Pause { Pause() {} ~Pause() {} };
#endif
struct Arm { Arm(uint64_t k, bool later) { count = failed = 0; at = k; all_later = later; armed = true; } ~Arm() { armed = false; at = ~0ull; } };
}
#endif
