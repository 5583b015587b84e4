// Storage whose previous contents the harness decides: heap blocks handed out by operator new and the memory an
// object is built in are filled with a chosen pattern first.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

namespace dirty {
inline int &fill_kind() {
    static int k = 0;
    return k;
}
// 0..255: that byte. 256+x: 32-bit words of value x. 1000+s: a byte ramp. 2000+x: 64-bit words of value x.
inline void fill(void *p, size_t n, int kind) {
    uint8_t *b = (uint8_t *)p;
    if (kind < 256) memset(b, kind, n);
    else if (kind < 1000)
        for (size_t i = 0; i < n; i++) b[i] = i % 4 == 0 ? (uint8_t)(kind - 256) : 0;
    else if (kind < 2000)
        for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 41 + kind);
    else
        for (size_t i = 0; i < n; i++) b[i] = i % 8 == 0 ? (uint8_t)(kind - 2000) : 0;
}
template <class T> struct Object {
    void *mem = nullptr;
    T *p = nullptr;
    template <class... A> Object(int kind, A &&...a) {
        mem = aligned_alloc(alignof(T) < 16 ? 16 : alignof(T), (sizeof(T) + 15) & ~(size_t)15);
        fill(mem, sizeof(T), kind);
        try {
            p = new (mem) T(static_cast<A &&>(a)...);
        }
        catch (...) {
            free(mem);
            throw;
        }
    }
    Object(const Object &) = delete;
    ~Object() {
        p->~T();
        free(mem);
    }
    T *operator->() { return p; }
    T &operator*() { return *p; }
};
} // namespace dirty

#ifndef DIRTY_NO_NEW
inline void *dirty_alloc(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    dirty::fill(p, n < 8192 ? n : 8192, dirty::fill_kind());
    return p;
}
void *operator new(size_t n) { return dirty_alloc(n); }
void *operator new[](size_t n) { return dirty_alloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
