// The runtime behind tsrt.hpp. Compiled without instrumentation.
#include "tsrt.hpp"
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <linux/futex.h>
#include <memory>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <threads.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" {
__thread int tsrt_in_lib = 0;
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_realloc(void *, size_t);
void *__libc_calloc(size_t, size_t);
}

namespace {
typedef uintptr_t A;
const int MAXT = 5;       // main and up to four
const int MAXP = 20000;   // scheduling points of one execution
const int BRANCH = 4000;  // points at which alternatives are explored
const int SPINS = 60;     // attempts after which a thread counts as spinning
const A ARENA_SIZE = 1ull << 28;

struct Shared { // between the explorer and the process of one schedule
    int prefix_len, n, try_used;
    uint8_t prefix[MAXP], choice[MAXP], count[MAXP], cost[MAXP]; // cost: preemption if the choice is not 0
    uint64_t points, accesses, hash;
    int nshared, grown;
    uintptr_t shared[2000]; // synchronisation objects that more than one thread has used in some execution
    int failed;
    char msg[3000];
};
Shared *sh;

bool active;          // in the process of a schedule
bool threads_running; // the controlled threads exist
__thread int self = 0;

// ------------------------------------------------------------------ vector clocks
struct VC {
    uint16_t c[MAXT];
    void join(const VC &o) {
        for (int i = 0; i < MAXT; i++)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
VC clk_[MAXT];

template <class T, int N> struct Table { // keyed by address; never shrinks
    A key[N];
    T val[N];
    T &get(A k) {
        size_t i = (k >> 2) * 0x9E3779B97F4A7C15ull >> 40;
        for (size_t j = 0; j < N; j++, i++)
            if (key[i % N] == k || !key[i % N]) {
                key[i % N] = k;
                return val[i % N];
            }
        tsrt::fail("internal: table full");
    }
};
Table<VC, 65536> *syncs;
struct Mutex {
    int owner, depth; // owner: thread + 1
    int readers[MAXT];
    int waiting_signal;
};
Table<Mutex, 65536> *mutexes;

// ------------------------------------------------------------------ shadow memory
struct Cell {
    uint16_t w;
    uint8_t wt;
    uint8_t flags;
    uint16_t r[MAXT];
    uint8_t ratom; // bit per thread: its last read was atomic
    uint8_t pad;
    uint32_t wpc, rpc;
};
enum { ALLOCATED = 1, FREED = 2, WATOMIC = 4 };
Cell **pages; // by address >> 16
A arena, arena_next[MAXT]; // each thread has its own part, so addresses do not depend on the schedule

A exe_base;
uint32_t pcoff(void *pc) { return (uint32_t)((A)pc - exe_base); }
std::string where(uint32_t off) {
    Dl_info i;
    if (dladdr((void *)(exe_base + off), &i) && i.dli_sname) return i.dli_sname;
    char b[40];
    snprintf(b, sizeof b, "code at +0x%x", off);
    return b;
}
std::string what(A a) {
    Dl_info i;
    char b[160];
    if (a >= arena && a < arena + ARENA_SIZE) return "heap memory";
    if (dladdr((void *)a, &i) && i.dli_sname) snprintf(b, sizeof b, "%s+%zu", i.dli_sname, (size_t)(a - (A)i.dli_saddr));
    else if (dladdr((void *)a, &i)) snprintf(b, sizeof b, "static memory at +0x%zx", (size_t)(a - (A)i.dli_fbase));
    else snprintf(b, sizeof b, "stack memory");
    return b;
}
Cell *cell(A a) {
    Cell *&p = pages[(a >> 16) & ((1ull << 31) - 1)];
    if (!p) {
        void *m = mmap(nullptr, sizeof(Cell) << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) tsrt::fail("internal: no shadow memory");
        p = (Cell *)m;
    }
    return p + (a & 0xFFFF);
}
void race(A a, bool write, int other, bool other_write, uint32_t opc, void *pc) {
    char b[900];
    snprintf(b, sizeof b, "data race on %s: thread %d %s it (in %s) while thread %d %s it (in %s)", what(a).c_str(), self, write ? "writes" : "reads", where(pcoff(pc)).c_str(), other,
             other_write ? "writes" : "reads", where(opc).c_str());
    tsrt::fail(b);
}
void access(A a, size_t n, bool write, bool atomic, void *pc) {
    if (tsrt_in_lib <= 0 || !threads_running) return;
    sh->accesses++;
    VC &c = clk_[self];
    for (size_t i = 0; i < n; i++, a++) {
        Cell *s = cell(a);
        if (a >= arena && a < arena + ARENA_SIZE && !(s->flags & ALLOCATED)) {
            char b[300];
            snprintf(b, sizeof b, "thread %d %s %s heap memory (in %s)", self, write ? "writes" : "reads", s->flags & FREED ? "freed" : "unallocated", where(pcoff(pc)).c_str());
            tsrt::fail(b);
        }
        if (s->w > c.c[s->wt] && s->wt != self && !(atomic && (s->flags & WATOMIC))) race(a, write, s->wt, true, s->wpc, pc);
        if (write) {
            for (int t = 1; t < MAXT; t++)
                if (t != self && s->r[t] > c.c[t] && !(atomic && (s->ratom >> t & 1))) race(a, true, t, false, s->rpc, pc);
            s->w = c.c[self];
            s->wt = (uint8_t)self;
            s->flags = (uint8_t)((s->flags & ~WATOMIC) | (atomic ? WATOMIC : 0));
            s->wpc = pcoff(pc);
        }
        else {
            s->r[self] = c.c[self];
            s->ratom = (uint8_t)((s->ratom & ~(1 << self)) | (atomic ? 1 << self : 0));
            s->rpc = pcoff(pc);
        }
    }
}
void acquire(A a) { clk_[self].join(syncs->get(a)); }
void release(A a) {
    syncs->get(a).join(clk_[self]);
    clk_[self].c[self]++;
}

// ------------------------------------------------------------------ scheduler
enum Op { START, LOCK, RDLOCK, WRLOCK, GUARD, CONDW, STEP, UNLOCK, DONE, SEMW };
struct Thread {
    Op op;
    A addr, addr2;
    bool signaled;
    bool timed;
    int go; // futex
    int spins;
} th[MAXT];
int nthreads, current;

void futex_wait(int *p) {
    while (__atomic_load_n(p, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(p, 0, __ATOMIC_SEQ_CST);
}
void futex_wake(int *p) {
    __atomic_store_n(p, 1, __ATOMIC_SEQ_CST);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
bool is_shared(A a);
bool enabled(int t) {
    Thread &x = th[t];
    switch (x.op) {
    case DONE: return false;
    case LOCK: case WRLOCK: case GUARD: {
        Mutex &m = mutexes->get(x.addr);
        for (int i = 0; i < MAXT; i++)
            if (x.op == WRLOCK && m.readers[i]) return false;
        return !m.owner || x.timed;
    }
    case SEMW: return *(unsigned *)x.addr || x.timed;
    case RDLOCK: return !mutexes->get(x.addr).owner;
    case CONDW: return (x.signaled || x.timed) && !mutexes->get(x.addr2).owner;
    default: return true;
    }
}
const char *opname(Op o) {
    static const char *const n[] = {"start", "lock", "read lock", "write lock", "initialise a static", "wait", "go on", "unlock", "done", "wait for a semaphore"};
    return n[o];
}
// Choose who goes on. The caller has set its own pending operation.
int choose() {
    int alt[MAXT], n = 0;
    bool cur = current && enabled(current);
    // A thread that only spins must let others run, each in its turn.
    bool spins = current && th[current].spins > SPINS;
    for (int t = 1; cur && spins && t <= nthreads; t++) cur = t == current || !enabled(t);
    if (cur) alt[n++] = current;
    for (int j = 0; j < nthreads; j++) {
        int t = spins ? (current + j) % nthreads + 1 : j + 1;
        if (enabled(t) && !(t == current && (cur || spins))) alt[n++] = t;
    }
    if (!n) {
        std::string s = "deadlock:";
        for (int t = 1; t <= nthreads; t++)
            if (th[t].op != DONE) {
                char b[100];
                Mutex &m = mutexes->get(th[t].op == CONDW ? th[t].addr2 : th[t].addr);
                snprintf(b, sizeof b, " thread %d cannot %s (held by thread %d);", t, opname(th[t].op), m.owner - 1);
                s += b;
            }
        tsrt::fail(s.c_str());
    }
    // Going up to its first synchronisation, and releasing a lock, commute with what other threads may do (as long as
    // nobody asks whether a lock is taken without waiting for it), so these need no alternatives; nor do operations on
    // what only one thread ever uses. Whenever an execution shows otherwise the exploration starts again.
    for (int j = 0; j < n; j++) {
        Op op = th[alt[j]].op;
        A a = th[alt[j]].addr;
        if (op == START || (op == UNLOCK && !sh->try_used) || (op != CONDW && a && !is_shared(a))) {
            alt[0] = alt[j];
            n = 1;
        }
    }
    if (sh->n >= MAXP) { // too long to record: no alternatives from here on
        if (++sh->points > 5000000) tsrt::fail("no progress: too many synchronisation operations");
        return alt[0];
    }
    int i = sh->n++, k = i < sh->prefix_len ? sh->prefix[i] : 0;
    if (k >= n) k = 0;
    sh->choice[i] = (uint8_t)k;
    sh->count[i] = (uint8_t)n;
    sh->cost[i] = cur;
    sh->hash = (sh->hash ^ (uint64_t)(alt[k] * 16 + th[alt[k]].op)) * 1099511628211ull;
    sh->points++;
    return alt[k];
}
void go_on() { // hand over to whoever is chosen, wait for the own turn
    int t = choose();
    if (t != current || th[self].op == DONE) {
        if (t != current && current) th[t].spins = 0;
        current = t;
        if (t == self) return;
        futex_wake(&th[t].go);
        if (th[self].op == DONE) return;
        futex_wait(&th[self].go);
    }
}
Table<uint8_t, 65536> *touched;
bool is_shared(A a) {
    for (int i = 0; i < sh->nshared; i++)
        if (sh->shared[i] == a) return true;
    return false;
}
void touch(A a) {
    uint8_t &t = touched->get(a);
    if (!t) t = (uint8_t)self;
    if (t != self && !is_shared(a)) {
        if (sh->nshared >= 2000) tsrt::fail("internal: too many shared locks");
        sh->shared[sh->nshared++] = a;
        sh->grown = 1;
    }
}
bool controlled() { return threads_running && self > 0; }
void point(Op op, A a, A a2 = 0, bool timed = false) {
    Thread &x = th[self];
    if (a) touch(a);
    x.op = op, x.addr = a, x.addr2 = a2, x.timed = timed, x.signaled = false;
    int in = tsrt_in_lib;
    tsrt_in_lib = 0;
    go_on();
    tsrt_in_lib = in;
    x.op = STEP;
}
struct Arg {
    int id;
    const std::function<void(int)> *body;
};
void *entry(void *p) {
    Arg *a = (Arg *)p;
    self = a->id;
    futex_wait(&th[self].go);
    th[self].op = STEP;
    (*a->body)(self - 1);
    tsrt_in_lib = 0;
    th[self].op = DONE;
    bool all = true;
    for (int t = 1; t <= nthreads; t++) all = all && th[t].op == DONE;
    if (!all) go_on();
    return nullptr;
}

// ------------------------------------------------------------------ heap
void *arena_get(size_t n, size_t align = 16) {
    A &next = arena_next[self];
    A a = (next + 32 + align - 1) / align * align;
    if (a + n + 64 > arena + ARENA_SIZE / MAXT * (A)(self + 1)) return nullptr;
    next = a + (n ? n : 1) + 32;
    *(size_t *)(a - 16) = n;
    for (size_t i = 0; i < n; i++) {
        Cell *c = cell(a + i);
        c->flags = ALLOCATED;
        if (threads_running) c->w = clk_[self].c[self], c->wt = (uint8_t)self; // private to its thread until handed over
    }
    return (void *)a;
}
void arena_put(void *p, void *pc) {
    A a = (A)p;
    size_t n = *(size_t *)(a - 16);
    if (n && cell(a)->flags & FREED) tsrt::fail("memory is freed twice");
    if (n && tsrt_in_lib > 0) access(a, n, true, false, pc);
    for (size_t i = 0; i < n; i++) cell(a + i)->flags = FREED;
}
bool in_arena(void *p) { return (A)p >= arena && (A)p < arena + ARENA_SIZE && arena; }
void *get(size_t n) {
    if (active) return arena_get(n);
    return __libc_malloc(n ? n : 1);
}
void put(void *p, void *pc) {
    if (!p) return;
    if (in_arena(p)) arena_put(p, pc);
    else __libc_free(p);
}
} // namespace

#define PC __builtin_return_address(0)
void *operator new(size_t n) {
    void *p = get(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) {
    void *p = get(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p, PC); }
void operator delete[](void *p) noexcept { put(p, PC); }
void operator delete(void *p, size_t) noexcept { put(p, PC); }
void operator delete[](void *p, size_t) noexcept { put(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p, PC); }

namespace tsrt {
uint64_t schedule_hash() { return sh->hash; }
void fail(const char *msg) {
    if (!active) {
        fprintf(stderr, "%s\n", msg);
        abort();
    }
    sh->failed = 1;
    snprintf(sh->msg, sizeof sh->msg, "%s", msg);
    _exit(7);
}
static void init() {
    if (sh) return;
    auto map = [](size_t n, int flags) {
        void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, flags | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            abort();
        }
        return p;
    };
    pages = (Cell **)map((size_t)8 << 31, MAP_PRIVATE);
    arena = (A)map(ARENA_SIZE, MAP_PRIVATE);
    syncs = (Table<VC, 65536> *)map(sizeof *syncs, MAP_PRIVATE);
    touched = (Table<uint8_t, 65536> *)map(sizeof *touched, MAP_PRIVATE);
    mutexes = (Table<Mutex, 65536> *)map(sizeof *mutexes, MAP_PRIVATE);
    Dl_info i;
    dladdr((void *)&tsrt::fail, &i);
    exe_base = (A)i.dli_fbase;
    sh = (Shared *)map(sizeof(Shared), MAP_SHARED);
}
double time_scale = 1;
void (*on_schedule)();
static void child(int n, const std::function<void()> &setup, const std::function<void(int)> &body, const std::function<void()> &check) {
    signal(SIGALRM, SIG_DFL);
    alarm(30);
    active = true;
    for (int t = 0; t < MAXT; t++) arena_next[t] = arena + ARENA_SIZE / MAXT * (A)t;
    self = 0;
    nthreads = n;
    current = 0;
    setup();
    Arg arg[MAXT];
    pthread_t id[MAXT];
    for (int t = 0; t < MAXT; t++) {
        memset(&clk_[t], 0, sizeof(VC));
        clk_[t].c[0] = t == 0 ? 2 : 1; // what the main thread did before is known to all
        clk_[t].c[t] = t == 0 ? 2 : 1;
        th[t].op = START;
        arg[t].id = t, arg[t].body = &body;
    }
    threads_running = true;
    for (int t = 1; t <= n; t++)
        if (pthread_create(&id[t], nullptr, entry, &arg[t])) fail("internal: no thread");
    current = choose();
    futex_wake(&th[current].go);
    for (int t = 1; t <= n; t++) pthread_join(id[t], nullptr);
    threads_running = false;
    check();
    _exit(0);
}
static uint64_t within_time(uint64_t cap) { // when the whole exploration takes long, later groups get fewer schedules
    static struct timespec t0;
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    if (!t0.tv_sec) t0 = t;
    double s = (double)(t.tv_sec - t0.tv_sec) / time_scale;
    uint64_t c = s < 60 ? cap : s < 150 ? 200 : s < 300 ? 30 : s < 420 ? 6 : 1;
    return c < cap ? c : cap;
}
std::string explore(int n, const std::function<void()> &setup, const std::function<void(int)> &body, const std::function<void()> &check, int bound, uint64_t cap, Stats &st) {
    init();
    sh->try_used = 0, sh->nshared = 0, sh->grown = 0;
    bool saw_try = false;
    // Schedules still to run, by how many preemptions they have: those with fewer come first, so that what is explored
    // when the time is up is everything up to some number of preemptions.
    struct Item {
        std::shared_ptr<std::vector<uint8_t>> base; // follow these choices before point i, there take k
        int i, k;
    };
    std::vector<std::deque<Item>> todo(1);
    todo[0].push_back({nullptr, -1, 0});
    uint64_t queued = 1;
    fflush(stdout);
    for (uint64_t done = 0;; done++) {
        size_t level = 0;
        while (level < todo.size() && todo[level].empty()) level++;
        if (level == todo.size()) return "";
        if (done >= within_time(cap)) {
            st.capped++;
            st.bound = (int)level;
            return "";
        }
        Item it = todo[level].front();
        todo[level].pop_front();
        if (on_schedule) on_schedule();
        sh->prefix_len = it.i + 1;
        if (it.i >= 0) {
            memcpy(sh->prefix, it.base->data(), (size_t)it.i);
            sh->prefix[it.i] = (uint8_t)it.k;
        }
        sh->n = 0, sh->points = 0, sh->accesses = 0, sh->failed = 0, sh->hash = 14695981039346656037ull;
        pid_t p = fork();
        if (p < 0) {
            perror("fork");
            abort();
        }
        if (!p) child(n, setup, body, check);
        int status = 0;
        while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
        st.schedules++, st.points += sh->points, st.accesses += sh->accesses;
        st.states += (uint64_t)(sh->n - sh->prefix_len + (it.i < 0 ? 1 : 0));
        std::string why;
        if (sh->failed) why = sh->msg;
        else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) why = "no progress for 30 s";
        else if (WIFSIGNALED(status)) why = std::string("crashed: ") + strsignal(WTERMSIG(status));
        else if (status) why = "ended with status " + std::to_string(WEXITSTATUS(status));
        if (why.empty() && (sh->grown || (!saw_try && sh->try_used))) {
            saw_try = sh->try_used;
            sh->grown = 0;
            for (auto &t : todo) t.clear();
            todo[0].push_back({nullptr, -1, 0});
            queued = 1;
            continue;
        }
        if (!why.empty()) {
            why += " [schedule";
            for (int i = 0; i < sh->n && i < 60; i++) why += " " + std::to_string(sh->choice[i]);
            return why + "]";
        }
        // every alternative after the prefix is new
        int end = sh->n < BRANCH ? sh->n : BRANCH, pre = 0;
        std::shared_ptr<std::vector<uint8_t>> base;
        for (int i = 0; i < end; i++) {
            if (i > it.i)
                for (int k = sh->choice[i] + 1; k < sh->count[i]; k++) {
                    size_t l = (size_t)(pre + (sh->cost[i] ? 1 : 0));
                    if (bound >= 0 && (int)l > bound) continue;
                    if (l >= todo.size()) todo.resize(l + 1);
                    if (++queued > 500000 && l > level) { // never to be reached within any cap
                        if (todo[l].empty()) todo[l].push_back({nullptr, -1, 0});
                        continue;
                    }
                    if (!base) base = std::make_shared<std::vector<uint8_t>>(sh->choice, sh->choice + end);
                    todo[l].push_back({base, i, k});
                }
            pre += sh->cost[i] && sh->choice[i] ? 1 : 0;
        }
    }
}
} // namespace tsrt

// ------------------------------------------------------------------ what instrumented code calls
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) { access((A)p, n, false, false, PC); }                                                \
    void __tsan_write##n(void *p) { access((A)p, n, true, false, PC); }                                                \
    void __tsan_unaligned_read##n(void *p) { access((A)p, n, false, false, PC); }                                      \
    void __tsan_unaligned_write##n(void *p) { access((A)p, n, true, false, PC); }                                      \
    void __tsan_read_write##n(void *p) { access((A)p, n, false, false, PC); access((A)p, n, true, false, PC); }        \
    void __tsan_unaligned_read_write##n(void *p) { access((A)p, n, false, false, PC); access((A)p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void *p) { access((A)p, n, false, false, PC); }                                       \
    void __tsan_volatile_write##n(void *p) { access((A)p, n, true, false, PC); }                                       \
    void __tsan_unaligned_volatile_read##n(void *p) { access((A)p, n, false, false, PC); }                             \
    void __tsan_unaligned_volatile_write##n(void *p) { access((A)p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void *p) { access((A)p, 8, false, false, PC); }
void __tsan_vptr_update(void **p, void *v) {
    if (*p != v) access((A)p, 8, true, false, PC);
    else access((A)p, 8, false, false, PC);
}
void __tsan_read_range(void *p, size_t n) { access((A)p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((A)p, n, true, false, PC); }
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    access((A)s, n, false, false, PC), access((A)d, n, true, false, PC);
    return __real_memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    access((A)s, n, false, false, PC), access((A)d, n, true, false, PC);
    return __real_memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    access((A)d, n, true, false, PC);
    return __real_memset(d, c, n);
}
// atomics: a scheduling point, then the operation, then its ordering
static void before_atomic(A a) {
    if (controlled() && tsrt_in_lib > 0) {
        th[self].spins++;
        point(STEP, a);
    }
}
static void after_atomic(A a, size_t n, bool rd, bool wr, int mo, void *pc) {
    if (!(controlled() && tsrt_in_lib > 0)) return;
    if (rd && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) acquire(a);
    access(a, n, wr, true, pc);
    if (wr && (mo == 3 || mo == 4 || mo == 5)) release(a);
}
typedef unsigned __int128 u128;
#define ATOMIC(n, T)                                                                                                   \
    T __tsan_atomic##n##_load(const volatile T *a, int mo) {                                                           \
        before_atomic((A)a);                                                                                           \
        T v = *a;                                                                                                      \
        after_atomic((A)a, n / 8, true, false, mo, PC);                                                                \
        return v;                                                                                                      \
    }                                                                                                                  \
    void __tsan_atomic##n##_store(volatile T *a, T v, int mo) {                                                        \
        before_atomic((A)a);                                                                                           \
        th[self].spins = 0;                                                                                            \
        *a = v;                                                                                                        \
        after_atomic((A)a, n / 8, false, true, mo, PC);                                                                \
    }                                                                                                                  \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) {                                                        \
        before_atomic((A)a);                                                                                           \
        T o = *a;                                                                                                      \
        *a = v;                                                                                                        \
        after_atomic((A)a, n / 8, true, true, mo, PC);                                                                 \
        return o;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) {                            \
        before_atomic((A)a);                                                                                           \
        T o = *a;                                                                                                      \
        bool ok = o == *c;                                                                                             \
        if (ok) *a = v;                                                                                                \
        after_atomic((A)a, n / 8, true, ok, mo, PC);                                                                   \
        *c = o;                                                                                                        \
        return ok;                                                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {                          \
        return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, fmo);                                           \
    }                                                                                                                  \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                              \
        __tsan_atomic##n##_compare_exchange_strong(a, &c, v, mo, fmo);                                                 \
        return c;                                                                                                      \
    }                                                                                                                  \
    FETCH(n, T, add, o + v) FETCH(n, T, sub, o - v) FETCH(n, T, and, o & v) FETCH(n, T, or, o | v) FETCH(n, T, xor, o ^ v) FETCH(n, T, nand, ~(o & v))
#define FETCH(n, T, nm, ex)                                                                                            \
    T __tsan_atomic##n##_fetch_##nm(volatile T *a, T v, int mo) {                                                      \
        before_atomic((A)a);                                                                                           \
        T o = *a;                                                                                                      \
        *a = (T)(ex);                                                                                                  \
        after_atomic((A)a, n / 8, true, true, mo, PC);                                                                 \
        return o;                                                                                                      \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, u128)
void __tsan_atomic_thread_fence(int) {
    if (!(controlled() && tsrt_in_lib > 0)) return;
    static char fence;
    point(STEP, (A)&fence);
    acquire((A)&fence);
    release((A)&fence);
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ locks, onces, conditions, statics
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int lock(A a, Op op, bool rec, bool timed) {
    if (!controlled()) return 0;
    Mutex &m = mutexes->get(a);
    if (rec && m.owner == self + 1) {
        m.depth++;
        return 0;
    }
    point(op, a, 0, timed);
    if (m.owner) return ETIMEDOUT;
    m.owner = self + 1;
    m.depth = 1;
    acquire(a);
    return 0;
}
static int trylock(A a, bool rec, bool wr) {
    if (!controlled()) return 0;
    th[self].spins++;
    sh->try_used = 1;
    point(STEP, a);
    Mutex &m = mutexes->get(a);
    if (rec && m.owner == self + 1) {
        m.depth++;
        return 0;
    }
    if (m.owner) return EBUSY;
    for (int i = 0; wr && i < MAXT; i++)
        if (m.readers[i]) return EBUSY;
    m.owner = self + 1;
    m.depth = 1;
    acquire(a);
    return 0;
}
static int unlock(A a) {
    if (!controlled()) return 0;
    Mutex &m = mutexes->get(a);
    if (m.owner != self + 1) tsrt::fail("a lock is released by a thread that does not hold it");
    if (--m.depth) return 0;
    point(UNLOCK, a);
    m.owner = 0;
    release(a);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) noexcept {
    int kind = 0;
    if (at) pthread_mutexattr_gettype(at, &kind);
    memset(m, 0, sizeof *m);
    m->__data.__kind = kind;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
    if (controlled() && mutexes->get((A)m).owner) tsrt::fail("a lock is destroyed while it is held");
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return lock((A)m, LOCK, recursive(m), false); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return trylock((A)m, recursive(m), false); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) noexcept { return lock((A)m, LOCK, recursive(m), true); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) noexcept { return lock((A)m, LOCK, recursive(m), true); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { return unlock((A)m); }
int pthread_spin_init(pthread_spinlock_t *m, int) noexcept { *m = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) noexcept { return 0; }
int pthread_spin_lock(pthread_spinlock_t *m) noexcept { return lock((A)m, LOCK, false, false); }
int pthread_spin_trylock(pthread_spinlock_t *m) noexcept { return trylock((A)m, false, false); }
int pthread_spin_unlock(pthread_spinlock_t *m) noexcept { return unlock((A)m); }
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) noexcept { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) noexcept { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { return lock((A)m, WRLOCK, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept { return trylock((A)m, false, true); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
    if (!controlled()) return 0;
    point(RDLOCK, (A)m);
    mutexes->get((A)m).readers[self]++;
    acquire((A)m);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept {
    if (!controlled()) return 0;
    sh->try_used = 1;
    point(STEP, (A)m);
    if (mutexes->get((A)m).owner) return EBUSY;
    mutexes->get((A)m).readers[self]++;
    acquire((A)m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
    if (!controlled()) return 0;
    Mutex &x = mutexes->get((A)m);
    if (x.owner == self + 1) return unlock((A)m);
    if (!x.readers[self]) tsrt::fail("a lock is released by a thread that does not hold it");
    point(UNLOCK, (A)m);
    x.readers[self]--;
    // readers order only later writers, but later readers may learn it too: less is reported, never more
    syncs->get((A)m).join(clk_[self]);
    clk_[self].c[self]++;
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
static int cond_wait(A c, A m, bool timed) {
    if (!controlled()) return timed ? ETIMEDOUT : 0;
    Mutex &x = mutexes->get(m);
    if (x.owner != self + 1) tsrt::fail("a condition is waited for without its lock");
    int depth = x.depth;
    x.owner = 0;
    release(m);
    point(CONDW, c, m, timed);
    bool sig = th[self].signaled;
    x.owner = self + 1;
    x.depth = depth;
    acquire(m);
    return sig || !timed ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait((A)c, (A)m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return cond_wait((A)c, (A)m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return cond_wait((A)c, (A)m, true); }
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (!controlled()) return 0;
    point(STEP, (A)c);
    for (int t = 1; t <= nthreads; t++)
        if (th[t].op == CONDW && th[t].addr == (A)c && !th[t].signaled) {
            th[t].signaled = true;
            break;
        }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (!controlled()) return 0;
    point(STEP, (A)c);
    for (int t = 1; t <= nthreads; t++)
        if (th[t].op == CONDW && th[t].addr == (A)c) th[t].signaled = true;
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!controlled()) {
        if (*o != 2) {
            f();
            *o = 2;
        }
        return 0;
    }
    point(GUARD, (A)o);
    if (*o != 2) {
        Mutex &m = mutexes->get((A)o);
        m.owner = self + 1;
        try {
            f();
        }
        catch (...) {
            m.owner = 0;
            throw;
        }
        *o = 2;
        m.owner = 0;
        release((A)o);
    }
    else acquire((A)o);
    return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
    uint8_t *b = (uint8_t *)g;
    if (*b) {
        if (controlled()) acquire((A)g);
        return 0;
    }
    if (!controlled()) return 1;
    point(GUARD, (A)g);
    if (*b) {
        acquire((A)g);
        return 0;
    }
    mutexes->get((A)g).owner = self + 1;
    return 1;
}
void __cxa_guard_release(uint64_t *g) noexcept {
    *(uint8_t *)g = 1;
    if (!controlled()) return;
    mutexes->get((A)g).owner = 0;
    release((A)g);
}
void __cxa_guard_abort(uint64_t *g) noexcept {
    if (controlled()) mutexes->get((A)g).owner = 0;
}
// the C11 names of the same things
int mtx_init(mtx_t *m, int type) {
    pthread_mutex_init((pthread_mutex_t *)m, nullptr);
    if (type & mtx_recursive) ((pthread_mutex_t *)m)->__data.__kind = PTHREAD_MUTEX_RECURSIVE;
    return thrd_success;
}
void mtx_destroy(mtx_t *m) { pthread_mutex_destroy((pthread_mutex_t *)m); }
int mtx_lock(mtx_t *m) { return pthread_mutex_lock((pthread_mutex_t *)m) ? thrd_error : thrd_success; }
int mtx_trylock(mtx_t *m) { return pthread_mutex_trylock((pthread_mutex_t *)m) ? thrd_busy : thrd_success; }
int mtx_unlock(mtx_t *m) { return pthread_mutex_unlock((pthread_mutex_t *)m) ? thrd_error : thrd_success; }
void call_once(once_flag *o, void (*f)(void)) { pthread_once((pthread_once_t *)o, f); }
void thrd_yield() { sched_yield(); }
int sem_init(sem_t *s, int, unsigned v) noexcept { *(unsigned *)s = v; return 0; }
int sem_destroy(sem_t *) noexcept { return 0; }
static int sem_take(sem_t *s, bool timed) {
    unsigned &v = *(unsigned *)s;
    if (controlled()) point(SEMW, (A)s, 0, timed);
    if (!v) {
        errno = ETIMEDOUT;
        return -1;
    }
    v--;
    if (controlled()) acquire((A)s);
    return 0;
}
int sem_wait(sem_t *s) { return sem_take(s, false); }
int sem_timedwait(sem_t *s, const struct timespec *) { return sem_take(s, true); }
int sem_clockwait(sem_t *s, clockid_t, const struct timespec *) { return sem_take(s, true); }
int sem_trywait(sem_t *s) noexcept {
    unsigned &v = *(unsigned *)s;
    if (controlled()) {
        th[self].spins++;
        sh->try_used = 1;
        point(STEP, (A)s);
    }
    if (!v) {
        errno = EAGAIN;
        return -1;
    }
    v--;
    if (controlled()) acquire((A)s);
    return 0;
}
int sem_post(sem_t *s) noexcept {
    if (controlled()) {
        point(STEP, (A)s);
        release((A)s);
    }
    ++*(unsigned *)s;
    return 0;
}
int sem_getvalue(sem_t *s, int *v) noexcept {
    if (controlled()) {
        sh->try_used = 1;
        point(STEP, (A)s);
    }
    *v = (int)*(unsigned *)s;
    return 0;
}
static void yield_() {
    if (!controlled()) return;
    th[self].spins += SPINS + 1;
    point(STEP, 0);
    th[self].spins = 0;
}
int sched_yield() noexcept { yield_(); return 0; }
int usleep(useconds_t) { yield_(); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { yield_(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { yield_(); return 0; }

// ------------------------------------------------------------------ library functions that touch memory (linked with --wrap)
void *__real_memcpy(void *d, const void *s, size_t n);
void *__real_memmove(void *d, const void *s, size_t n);
void *__real_memset(void *d, int c, size_t n);
void *__real_mempcpy(void *d, const void *s, size_t n);
int __real_memcmp(const void *a, const void *b, size_t n);
int __real_bcmp(const void *a, const void *b, size_t n);
void *__real_memchr(const void *a, int c, size_t n);
size_t __real_strlen(const char *s);
void *__real_aligned_alloc(size_t, size_t);
size_t __real_strnlen(const char *s, size_t m);
char *__real_strcpy(char *d, const char *s);
char *__real_stpcpy(char *d, const char *s);
char *__real_strncpy(char *d, const char *s, size_t n);
char *__real_strcat(char *d, const char *s);
char *__real_strncat(char *d, const char *s, size_t m);
int __real_strcmp(const char *a, const char *b);
int __real_strncmp(const char *a, const char *b, size_t n);
char *__real_strchr(const char *s, int c);
char *__real_strrchr(const char *s, int c);
char *__real_strstr(const char *s, const char *t);
int __real_vsnprintf(char *d, size_t n, const char *f, va_list ap);
int __real_snprintf(char *d, size_t n, const char *f, ...);
int __real_vsprintf(char *d, const char *f, va_list ap);
int __real_sprintf(char *d, const char *f, ...);
size_t __real_fread(void *d, size_t s, size_t n, FILE *f);
void *__real_malloc(size_t n);
void __real_free(void *p);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
char *__real_strtok(char *s, const char *d);
struct tm *__real_gmtime(const time_t *t);
struct tm *__real_localtime(const time_t *t);
char *__real_asctime(const struct tm *t);
char *__real_ctime(const time_t *t);
char *__real_strerror(int e);
int __real_rand();
void __real_srand(unsigned s);
long __real_random();
void __real_srandom(unsigned s);
double __real_drand48();
long __real_lrand48();
int __real_setenv(const char *a, const char *b, int c);
int __real_putenv(char *a);
void __real_tzset();
int __real_mblen(const char *s, size_t n);
char *__real_l64a(long v);
char *__real_ecvt(double v, int n, int *d, int *s);
#define memcpy __real_memcpy
#define memmove __real_memmove
#define memset __real_memset
#define memcmp __real_memcmp
#define memchr __real_memchr
#define strlen __real_strlen
#define strnlen __real_strnlen
#define strcpy __real_strcpy
#define stpcpy __real_stpcpy
#define strncpy __real_strncpy
#define strcat __real_strcat
#define strncat __real_strncat
#define strcmp __real_strcmp
#define strncmp __real_strncmp
#define strchr __real_strchr
#define strrchr __real_strrchr
#define strstr __real_strstr
#define vsnprintf __real_vsnprintf
#define snprintf __real_snprintf
#define vsprintf __real_vsprintf
#define sprintf __real_sprintf
#define fread __real_fread
#define strtok __real_strtok
#define gmtime __real_gmtime
#define localtime __real_localtime
#define asctime __real_asctime
#define ctime __real_ctime
#define strerror __real_strerror
#define rand __real_rand
#define srand __real_srand
#define random __real_random
#define srandom __real_srandom
#define drand48 __real_drand48
#define lrand48 __real_lrand48
#define setenv __real_setenv
#define putenv __real_putenv
#define tzset __real_tzset
#define mblen __real_mblen
#define l64a __real_l64a
#define ecvt __real_ecvt
#define RD(p, n) access((A)(p), n, false, false, PC)
#define WR(p, n) access((A)(p), n, true, false, PC)
void *__wrap_memcpy(void *d, const void *s, size_t n) { RD(s, n), WR(d, n); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { RD(s, n), WR(d, n); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { WR(d, n); return memset(d, c, n); }
void *__wrap_mempcpy(void *d, const void *s, size_t n) { RD(s, n), WR(d, n); return (char *)memcpy(d, s, n) + n; }
int __wrap_memcmp(const void *a, const void *b, size_t n) { RD(a, n), RD(b, n); return memcmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { RD(a, n), RD(b, n); return memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int c, size_t n) {
    void *r = (void *)memchr(a, c, n);
    RD(a, r ? (size_t)((A)r - (A)a) + 1 : n);
    return r;
}
size_t __wrap_strlen(const char *s) { size_t n = strlen(s); RD(s, n + 1); return n; }
size_t __wrap_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); RD(s, n < m ? n + 1 : m); return n; }
char *__wrap_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n), WR(d, n); return (char *)memcpy(d, s, n); }
char *__wrap_stpcpy(char *d, const char *s) { size_t n = strlen(s) + 1; RD(s, n), WR(d, n); memcpy(d, s, n); return d + n - 1; }
char *__wrap_strncpy(char *d, const char *s, size_t n) { size_t m = strnlen(s, n); RD(s, m < n ? m + 1 : m), WR(d, n); return strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { size_t l = strlen(d), n = strlen(s) + 1; RD(d, l), RD(s, n), WR(d + l, n); return strcat(d, s); }
char *__wrap_strncat(char *d, const char *s, size_t m) { size_t l = strlen(d), n = strnlen(s, m); RD(d, l), RD(s, n), WR(d + l, n + 1); return strncat(d, s, m); }
int __wrap_strcmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    RD(a, i + 1), RD(b, i + 1);
    return strcmp(a, b);
}
int __wrap_strncmp(const char *a, const char *b, size_t n) {
    size_t i = 0;
    while (i < n && a[i] && a[i] == b[i]) i++;
    if (i < n) i++;
    RD(a, i), RD(b, i);
    return strncmp(a, b, n);
}
char *__wrap_strchr(const char *s, int c) {
    char *r = (char *)strchr(s, c);
    RD(s, r ? (size_t)(r - s) + 1 : strlen(s) + 1);
    return r;
}
char *__wrap_strrchr(const char *s, int c) { RD(s, strlen(s) + 1); return (char *)strrchr(s, c); }
char *__wrap_strstr(const char *s, const char *t) { RD(s, strlen(s) + 1), RD(t, strlen(t) + 1); return (char *)strstr(s, t); }
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
    int r = vsnprintf(d, n, f, ap);
    if (n && r >= 0) WR(d, (size_t)r + 1 < n ? (size_t)r + 1 : n);
    return r;
}
int __wrap_snprintf(char *d, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(d, n, f, ap);
    va_end(ap);
    if (n && r >= 0) WR(d, (size_t)r + 1 < n ? (size_t)r + 1 : n);
    return r;
}
int __wrap_vsprintf(char *d, const char *f, va_list ap) {
    int r = vsprintf(d, f, ap);
    if (r >= 0) WR(d, (size_t)r + 1);
    return r;
}
int __wrap_sprintf(char *d, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = vsprintf(d, f, ap);
    va_end(ap);
    if (r >= 0) WR(d, (size_t)r + 1);
    return r;
}
size_t __wrap_fread(void *d, size_t s, size_t n, FILE *f) {
    int in = tsrt_in_lib;
    tsrt_in_lib = 0;
    size_t r = fread(d, s, n, f);
    tsrt_in_lib = in;
    WR(d, r * s);
    return r;
}
void *__wrap_malloc(size_t n) { return get(n); }
void *__wrap_aligned_alloc(size_t al, size_t n) { return active ? arena_get(n, al < 16 ? 16 : al) : __real_aligned_alloc(al, n); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { return (*p = arena_get(n, al < 16 ? 16 : al)) ? 0 : ENOMEM; }
char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    RD(s, n);
    char *p = (char *)get(n);
    return p ? (char *)__real_memcpy(p, s, n) : p;
}
void __wrap_free(void *p) { put(p, PC); }
void *__wrap_calloc(size_t a, size_t b) {
    if (!active) return __libc_calloc(a, b);
    void *p = get(a * b);
    if (p) __real_memset(p, 0, a * b);
    return p;
}
void *__wrap_realloc(void *p, size_t n) {
    if (!active && !in_arena(p)) return __libc_realloc(p, n);
    if (!p) return get(n);
    if (!in_arena(p)) tsrt::fail("realloc of foreign memory");
    void *q = get(n);
    size_t o = *(size_t *)((A)p - 16);
    if (q) __real_memcpy(q, p, o < n ? o : n), put(p, PC);
    return q;
}
// functions with hidden state of their own: a call counts as a write of it
static char hidden[16];
#define HIDDEN(i) access((A)&hidden[i], 1, true, false, PC)
char *__wrap_strtok(char *s, const char *d) { HIDDEN(0); return strtok(s, d); }
struct tm *__wrap_gmtime(const time_t *t) { HIDDEN(1); return gmtime(t); }
struct tm *__wrap_localtime(const time_t *t) { HIDDEN(1); return localtime(t); }
char *__wrap_asctime(const struct tm *t) { HIDDEN(1); return asctime(t); }
char *__wrap_ctime(const time_t *t) { HIDDEN(1); return ctime(t); }
char *__wrap_strerror(int e) { HIDDEN(2); return strerror(e); }
int __wrap_rand() { HIDDEN(3); return rand(); }
void __wrap_srand(unsigned s) { HIDDEN(3); srand(s); }
long __wrap_random() { HIDDEN(4); return random(); }
void __wrap_srandom(unsigned s) { HIDDEN(4); srandom(s); }
double __wrap_drand48() { HIDDEN(5); return drand48(); }
long __wrap_lrand48() { HIDDEN(5); return lrand48(); }
int __wrap_setenv(const char *a, const char *b, int c) { HIDDEN(6); return setenv(a, b, c); }
int __wrap_putenv(char *a) { HIDDEN(6); return putenv(a); }
void __wrap_tzset() { HIDDEN(7); tzset(); }
int __wrap_mblen(const char *s, size_t n) { HIDDEN(8); return mblen(s, n); }
char *__wrap_l64a(long v) { HIDDEN(9); return l64a(v); }
char *__wrap_ecvt(double v, int n, int *d, int *s) { HIDDEN(10); return ecvt(v, n, d, s); }
}
// localeconv, setlocale and the like are not used anywhere near this library.
