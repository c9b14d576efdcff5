// fault_new.h - the allocation functions of a program whose allocations fail on demand (include in one file only)
#ifndef VERIF_FAULT_NEW_H
#define VERIF_FAULT_NEW_H
#include "fault.h"
#ifndef VERIF_FAULTS
#error "define VERIF_FAULTS first"
#endif
#include <new>
#include <cstdlib>
static void* take(size_t n) { if (fault::hit(n)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fault::hit(n) ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fault::hit(n) ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
