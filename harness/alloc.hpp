// The harness owns operator new: it can make any allocation made inside a library call fail, and counts what is live.
#pragma once
#define DIRTY_NO_NEW
#include <cstdint>
#include <cstdlib>
#include <new>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ALLOC_BY_HOOK 1 // every malloc, calloc, realloc and free is counted, not only what comes through operator new
#endif
#endif
#ifndef ALLOC_BY_HOOK
#define ALLOC_BY_HOOK 0
#endif
namespace alloc {
static const bool by_hook = ALLOC_BY_HOOK;
inline long live = 0, seen = 0, fail_from = -1, fail_to = -1, failed = 0;
inline bool (*&inside())() {
    static bool (*f)() = nullptr;
    return f;
}
inline void arm(long from, long to) { seen = 0, failed = 0, fail_from = from, fail_to = to; }
inline void disarm() { fail_from = fail_to = -1; }
inline void *get(size_t n, bool nothrow) {
    if (inside() && inside()()) {
        long i = seen++;
        if (i >= fail_from && i < fail_to) {
            failed++;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void *p = malloc(n ? n : 1);
    if (!p) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (!by_hook) live++;
    return p;
}
inline void put(void *p) {
    if (p && !by_hook) live--;
    free(p);
}
} // namespace alloc
void *operator new(size_t n) { return alloc::get(n, false); }
void *operator new[](size_t n) { return alloc::get(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc::get(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc::get(n, true); }
void operator delete(void *p) noexcept { alloc::put(p); }
void operator delete[](void *p) noexcept { alloc::put(p); }
void operator delete(void *p, size_t) noexcept { alloc::put(p); }
void operator delete[](void *p, size_t) noexcept { alloc::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { alloc::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { alloc::put(p); }
#if ALLOC_BY_HOOK
extern "C" void __sanitizer_malloc_hook(const volatile void *, size_t) { alloc::live++; }
extern "C" void __sanitizer_free_hook(const volatile void *p) { alloc::live -= p != nullptr; }
#endif
