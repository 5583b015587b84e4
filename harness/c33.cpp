// C33: one program interrupted by another on the same thread (as by a signal handler, a stream's read function or an
// allocation hook that calls the library), at every memory access and function entry inside the library.
#define DIRTY_NO_NEW
#include "mc.hpp"
#include <algorithm>
#include "irq.hpp"
#include "units.hpp"
using namespace units;

static Rec *inner;
static Out inner_got;
static size_t inner_from;
static std::string inner_bad;
static void handler() {
    try {
        for (size_t i = inner_from; i < inner->steps.size(); i++) inner->steps[i](inner_got);
    }
    catch (const std::exception &e) {
        inner_bad = std::string("unexpected exception: ") + e.what();
    }
    catch (const char *) {
        inner_bad = "blocked";
    }
}
// v: family, algorithm, n of the interrupted unit, the same of the other one, how many of its last steps run inside (0: all)
struct Pair {
    std::unique_ptr<Rec> r, q;
    Out got;
    Pair(Unit &u, Unit &w, int64_t last) : r(u.instance()), q(w.instance()) {
        inner = q.get();
        inner_got.clear();
        inner_bad.clear();
        inner_from = 0;
        clk::now() = NOW;
        if (last && last < (int64_t)q->steps.size())
            for (; inner_from < q->steps.size() - (size_t)last; inner_from++) q->steps[inner_from](inner_got);
    }
    bool outer() {
        try {
            for (auto &s : r->steps) s(got);
            return true;
        }
        catch (...) {
            return false;
        }
    }
};
void run_case(const mc::Case &c) {
    static uint64_t &ex = mc::count("executions"), &tr = mc::count("transitions"), &st = mc::count("states"), &cf = mc::count("points_with_a_conflict");
    Unit u((int)c.v[0], (int)c.v[1], c.v[2]), w((int)c.v[3], (int)c.v[4], c.v[5]);
    std::string a = label((int)c.v[0], (int)c.v[1], c.v[2]), b = label((int)c.v[3], (int)c.v[4], c.v[5]);
    {
        Pair p(u, w, c.v[6]);
        irq::record_program();
        bool ok = p.outer();
        irq::record_handler();
        handler();
        irq::record_stop();
        CHECK(ok && inner_bad.empty(), "%s: unexpected exception", describe(c).c_str());
        u.compare(p.got, "");
        w.compare(inner_got, "");
    }
    irq::forget();
    uint64_t total, conflicts;
    std::vector<uint32_t> todo = irq::points(total, conflicts, (size_t)c.v[7]), done;
    if (c.v[7] < 0) {
        if (total > (mc::thorough() ? 60000 : 1500)) return;
        todo.clear();
        for (uint32_t i = 0; i < total; i++) todo.push_back(i);
    }
    irq::grown();
    st += total, cf += conflicts;
    mc::outcome(&total, 8, mc::fnv(&c.v[0], sizeof c.v[0] * 3));
    if (getenv("C33_POINTS")) printf("POINTS %s %" PRIu64 " %zu %" PRIu64 "\n", a.c_str(), total, todo.size(), conflicts);
    while (!todo.empty()) {
        for (uint32_t at : todo) {
            if (at % 64 == 0) mc::tick();
            Pair p(u, w, c.v[6]);
            irq::arm(at, handler);
            bool ok = p.outer(), ran = irq::disarm();
            ex++, tr++;
            if (!ran) handler(); // after another handler the program may pass fewer points
            std::string how = mc::strf("%s interrupted at point %u of %" PRIu64 " (code at +0x%x) by %s", a.c_str(), at, total, irq::where(), b.c_str());
            CHECK(ok, "%s: unexpected exception in the interrupted program", how.c_str());
            CHECK(inner_bad != "blocked", "%s: %s", how.c_str(), irq::blocked);
            CHECK(inner_bad.empty(), "%s: in the interrupting program: %s", how.c_str(), inner_bad.c_str());
            u.compare(p.got, ": " + how);
            w.compare(inner_got, " (the interrupting one): " + how);
        }
        done.insert(done.end(), todo.begin(), todo.end());
        std::sort(done.begin(), done.end());
        todo.clear();
        if (!irq::grown()) break;
        for (uint32_t at : irq::points(total, conflicts, (size_t)c.v[7]))
            if (!std::binary_search(done.begin(), done.end(), at)) todo.push_back(at);
    }
}
std::string describe(const mc::Case &c) {
    return label((int)c.v[0], (int)c.v[1], c.v[2]) + ", interrupted everywhere by " + (c.v[6] ? mc::strf("the last %" PRId64 " steps of ", c.v[6]) : "") + label((int)c.v[3], (int)c.v[4], c.v[5]) + (c.v[7] < 0 ? ", without reduction" : "");
}
void enumerate() {
    bool T = mc::thorough();
    const int64_t ALL = 1 << 30, EVERY = -1;
    int N = (int)all().size();
    for (int p = 0; p < N; p++) {
        for (int q = 0; q < N; q++) mc::at(1, {PROGS, p, 0, PROGS, q, 1, 0, p == q || T ? ALL : 60});
        for (int last = 1; last <= (T ? 6 : 3); last++) mc::at(1, {PROGS, p, 0, PROGS, p, 1, last, ALL});
        for (int other : {0, 16, 32, 48, 64}) mc::at(1, {PROGS, p, 0, PROGS, p, other, 0, T ? ALL : 60});
        mc::at(1, {PROGS, p, 2, PROGS, p, 3, 0, ALL});
    }
    for (int f = 1; f < FAMILIES; f++)
        for (int a = 0; a < algs(f); a++)
            for (int64_t n : {0, 1, 9, 33, 64, 130, 260}) {
                mc::at(1, {f, a, n, f, a, n + 70, 0, ALL});
                if (T) mc::at(1, {f, a, n, f, (a + 1) % algs(f), n, 0, ALL});
                mc::at(1, {f, a, n + 1100, f, a, n, 0, T ? ALL : 100});
                if (n == 33) mc::at(1, {f, a, n, f, a, n, 1, ALL});
            }
    if (T)
        for (int f = 1; f < FAMILIES; f++)
            for (int a = 0; a < algs(f); a++)
                for (int64_t n = 0; n < 200; n++) mc::at(1, {f, a, n, f, a, n + 1, 0, ALL});
    // no reduction: an interrupt at every single point of the shorter programs and lengths
    for (int p = 0; p < N; p++) mc::at(1, {PROGS, p, 0, PROGS, p, 1, 0, EVERY});
    for (int f = 1; f < FAMILIES; f++)
        for (int a = 0; a < algs(f); a++) mc::at(1, {f, a, 9, f, a, 33, 0, EVERY});
}
void selfcheck() { units::selfcheck(); }
