// Counts what the code under test allocates: include in exactly one translation unit.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <malloc.h>
#include <new>

namespace alloc {
inline size_t live = 0, peak = 0, largest = 0, total = 0;
inline bool counting = false;
inline size_t refuseAbove = size_t(-1); // larger requests throw bad_alloc, as on a machine which does not overcommit
inline void start() {
    counting = true;
    live = peak = largest = total = 0;
}
inline void stop() { counting = false; }
inline void* get(size_t n) {
    if (counting) {
        if (n > largest) largest = n;
        total += n;
        live += n;
        if (live > peak) peak = live;
        if (n > refuseAbove) throw std::bad_alloc();
    }
    if (auto p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
inline void put(void* p) {
    if (p && counting) {
        auto n = malloc_usable_size(p);
        live = live > n ? live - n : 0;
    }
    std::free(p);
}
} // namespace alloc
void* operator new(size_t n) { return alloc::get(n); }
void* operator new[](size_t n) { return alloc::get(n); }
void operator delete(void* p) noexcept { alloc::put(p); }
void operator delete[](void* p) noexcept { alloc::put(p); }
void operator delete(void* p, size_t) noexcept { alloc::put(p); }
void operator delete[](void* p, size_t) noexcept { alloc::put(p); }
