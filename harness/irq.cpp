// The runtime behind irq.hpp. Compiled without instrumentation.
#include "irq.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <pthread.h>

extern "C" __thread int tsrt_in_lib = 0;
extern "C" char __executable_start, end;
extern "C" void __real_free(void *p);
typedef uintptr_t A;
namespace irq {
const char *blocked;
enum Mode { OFF, PROGRAM, HANDLER, ARMED, INSIDE };
static Mode mode;
static uint32_t left, seen, at_pc;
static bool ran, more;
static int once; // depth of one-time initialisations: an interrupt there would wait for itself, whatever the library does
static void (*fun)();
static A stack_top;

struct Access {
    A granule; // 0: a function entry or exit
    uint32_t at;
    uint8_t mask;
    bool write;
};
static std::vector<Access> program;
// what the handler accesses, in granules of 8 bytes
struct Slot {
    A granule;
    uint8_t rd, wr;
};
static std::vector<Slot> table(1 << 16);
static size_t used;
static Slot &slot(A g) {
    if (used * 2 > table.size()) {
        std::vector<Slot> old(table.size() * 2);
        old.swap(table);
        used = 0;
        for (auto &s : old)
            if (s.granule) slot(s.granule) = s;
    }
    size_t i = (g * 0x9E3779B97F4A7C15ull) >> 32;
    for (;; i++) {
        Slot &s = table[i & (table.size() - 1)];
        if (s.granule == g) return s;
        if (!s.granule) {
            used++;
            s.granule = g;
            return s;
        }
    }
}
static const Slot *find(A g) {
    for (size_t i = (g * 0x9E3779B97F4A7C15ull) >> 32;; i++) {
        const Slot &s = table[i & (table.size() - 1)];
        if (s.granule == g) return &s;
        if (!s.granule) return nullptr;
    }
}
static std::vector<void *> kept;
static bool keeping, self;
struct Self { // our own allocations are not the library's
    bool was = self;
    Self() { self = true; }
    ~Self() { self = was; }
};
static bool on_stack(A a) { return a >= (A)__builtin_frame_address(0) && a < stack_top; }
static bool is_static(A a) {
    A t = (A)pthread_self();
    return (a >= (A)&__executable_start && a < (A)&end) || (a + 65536 >= t && a < t + 4096);
}
static void interrupt(void *pc) {
    int d = tsrt_in_lib;
    mode = INSIDE;
    ran = true;
    tsrt_in_lib = 0;
    at_pc = (uint32_t)((A)pc - (A)&__executable_start);
    int e = errno;
    fun();
    errno = e;
    tsrt_in_lib = d;
    mode = ARMED;
}
static void note(A a, size_t n, bool write, bool only_static) {
    if (on_stack(a) || (only_static && !is_static(a))) return;
    Self s;
    for (A e = a + n; a < e;) {
        A g = a >> 3, stop = std::min(e, (g + 1) << 3);
        uint8_t m = (uint8_t)(((1u << (stop - a)) - 1) << (a & 7));
        if (mode == PROGRAM) program.push_back({g, seen, m, write});
        else {
            Slot &x = slot(g);
            uint8_t &f = write ? x.wr : x.rd;
            if (m & ~f) f |= m, more = true;
        }
        a = stop;
    }
}
static inline void point(void *pc, A a, size_t n, bool write) {
    if (mode == OFF || tsrt_in_lib <= 0) return;
    switch (mode) {
    case PROGRAM:
        if (once) return;
        if (!n) {
            Self s;
            program.push_back({0, seen, 0, false});
        }
        else note(a, n, write, false);
        seen++;
        return;
    case HANDLER: if (n) note(a, n, write, false); return;
    case INSIDE: if (n) note(a, n, write, true); return;
    case ARMED:
        if (once) return;
        if (seen++ == left) interrupt(pc);
        return;
    default: return;
    }
}
static void start(Mode m) {
    pthread_attr_t at;
    if (!stack_top) {
        void *p;
        size_t n;
        pthread_getattr_np(pthread_self(), &at);
        pthread_attr_getstack(&at, &p, &n);
        pthread_attr_destroy(&at);
        stack_top = (A)p + n;
    }
    once = 0;
    seen = 0;
    mode = m;
}
void record_program() {
    program.clear();
    keeping = true;
    start(PROGRAM);
}
void record_handler() {
    std::fill(table.begin(), table.end(), Slot{});
    used = 0;
    start(HANDLER);
}
void record_stop() { mode = OFF; }
void forget() {
    keeping = false;
    for (void *p : kept) __real_free(p);
    kept.clear();
}
std::vector<uint32_t> points(uint64_t &total, uint64_t &conflicts, size_t calls) {
    Self s;
    std::vector<uint32_t> v;
    total = conflicts = 0;
    for (auto &a : program) {
        total = a.at + 1;
        if (!a.granule) {
            if (!calls) continue;
            calls--;
        }
        else {
            const Slot *x = find(a.granule);
            if (!x || !(a.mask & (a.write ? x->rd | x->wr : x->wr))) continue;
            conflicts++;
        }
        if (v.empty() || v.back() != a.at) v.push_back(a.at);
    }
    return v;
}
void arm(uint32_t at, void (*handler)()) {
    left = at;
    fun = handler;
    ran = false;
    blocked = nullptr;
    start(ARMED);
}
bool disarm() {
    mode = OFF;
    return ran;
}
bool grown() {
    bool m = more;
    more = false;
    return m;
}
uint32_t where() { return at_pc; }
} // namespace irq
using irq::point;
#define PC __builtin_return_address(0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { point(PC, 0, 0, false); }
void __tsan_func_exit() { point(PC, 0, 0, false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define P1(name, n, w) void __tsan_##name(void *p) { point(PC, (A)p, n, w); }
#define RW(n)                                                                                                          \
    P1(read##n, n, false) P1(write##n, n, true) P1(unaligned_read##n, n, false) P1(unaligned_write##n, n, true) P1(read_write##n, n, true) P1(unaligned_read_write##n, n, true) \
    P1(volatile_read##n, n, false) P1(volatile_write##n, n, true) P1(unaligned_volatile_read##n, n, false) P1(unaligned_volatile_write##n, n, true)
RW(1) RW(2) RW(4) RW(8) RW(16)
P1(vptr_read, 8, false)
void __tsan_vptr_update(void **p, void *) { point(PC, (A)p, 8, true); }
void __tsan_read_range(void *p, size_t n) { point(PC, (A)p, n, false); }
void __tsan_write_range(void *p, size_t n) { point(PC, (A)p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { point(PC, (A)s, n, false), point(PC, (A)d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { point(PC, (A)s, n, false), point(PC, (A)d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { point(PC, (A)d, n, true); return memset(d, c, n); }
typedef unsigned __int128 u128;
#define ATOMIC(n, T)                                                                                                   \
    T __tsan_atomic##n##_load(const volatile T *a, int) { point(PC, (A)a, n / 8, false); return *a; }                  \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) { point(PC, (A)a, n / 8, true); *a = v; }                   \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { point(PC, (A)a, n / 8, true); T o = *a; *a = v; return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                               \
        point(PC, (A)a, n / 8, true);                                                                                  \
        T o = *a;                                                                                                      \
        bool ok = o == *c;                                                                                             \
        if (ok) *a = v;                                                                                                \
        *c = o;                                                                                                        \
        return ok;                                                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, m, f); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, m, f); return c; } \
    FETCH(n, T, add, o + v) FETCH(n, T, sub, o - v) FETCH(n, T, and, o & v) FETCH(n, T, or, o | v) FETCH(n, T, xor, o ^ v) FETCH(n, T, nand, ~(o & v))
#define FETCH(n, T, nm, ex) T __tsan_atomic##n##_fetch_##nm(volatile T *a, T v, int) { point(PC, (A)a, n / 8, true); T o = *a; *a = (T)(ex); return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, u128)
void __tsan_atomic_thread_fence(int) { point(PC, 0, 0, false); }
void __tsan_atomic_signal_fence(int) {}

// Locks: whatever a handler finds taken was taken by the code it interrupted (there is one thread) and will not come free.
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    point(PC, 0, 0, false);
    if (irq::mode != irq::INSIDE) return __real_pthread_mutex_lock(m);
    int r = pthread_mutex_trylock(m);
    if (r) irq::blocked = "a call made from the handler waits for a lock that the interrupted call holds";
    if (r == EBUSY) throw irq::blocked;
    return r;
}
int __real___cxa_guard_acquire(void *g);
void __real___cxa_guard_release(void *g);
void __real___cxa_guard_abort(void *g);
int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); irq::once += r; return r; }
void __wrap___cxa_guard_release(void *g) { __real___cxa_guard_release(g), irq::once--; }
void __wrap___cxa_guard_abort(void *g) { __real___cxa_guard_abort(g), irq::once--; }
int __real_pthread_once(pthread_once_t *o, void (*f)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
    irq::once++;
    int r = __real_pthread_once(o, f);
    irq::once--;
    return r;
}
// Library functions that write what they are given. Each call is a point, and so is the return from it.
#define CALL(p, n) point(PC, (A)(p), n, true), point(PC, 0, 0, false)
size_t __real_fread(void *d, size_t s, size_t n, FILE *f);
size_t __wrap_fread(void *d, size_t s, size_t n, FILE *f) {
    point(PC, 0, 0, false);
    size_t r = __real_fread(d, s, n, f);
    CALL(d, r * s);
    return r;
}
int __real_vsnprintf(char *d, size_t n, const char *f, va_list ap);
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
    point(PC, 0, 0, false);
    int r = __real_vsnprintf(d, n, f, ap);
    CALL(d, r < 0 ? 0 : (size_t)r + 1 < n ? (size_t)r + 1 : n);
    return r;
}
int __wrap_snprintf(char *d, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = __wrap_vsnprintf(d, n, f, ap);
    va_end(ap);
    return r;
}
int __wrap_sprintf(char *d, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = __wrap_vsnprintf(d, (size_t)1 << 30, f, ap);
    va_end(ap);
    return r;
}
char *__real_strcpy(char *d, const char *s);
char *__wrap_strcpy(char *d, const char *s) { __real_strcpy(d, s); CALL(d, strlen(s) + 1); return d; }
char *__real_strncpy(char *d, const char *s, size_t n);
char *__wrap_strncpy(char *d, const char *s, size_t n) { __real_strncpy(d, s, n); CALL(d, n); return d; }
char *__real_strcat(char *d, const char *s);
char *__wrap_strcat(char *d, const char *s) { __real_strcat(d, s); CALL(d, strlen(d) + 1); return d; }
struct tm *__real_gmtime(const time_t *t);
struct tm *__wrap_gmtime(const time_t *t) { struct tm *r = __real_gmtime(t); CALL(r, sizeof *r); return r; }
struct tm *__real_localtime(const time_t *t);
struct tm *__wrap_localtime(const time_t *t) { struct tm *r = __real_localtime(t); CALL(r, sizeof *r); return r; }
// Memory given back while recording is kept, so that no later block has the same address.
void __real_free(void *p);
void __wrap_free(void *p) {
    if (!irq::keeping || irq::self || !p) return __real_free(p);
    irq::Self s;
    irq::kept.push_back(p);
}
}
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
