// C29: every unit with everything a call could see beforehand filled with each of many patterns: the stack below the
// call, heap blocks handed out, the storage of contexts and objects, and output buffers. Also in builds whose automatic
// variables begin as zeros or as a pattern.
#include <malloc.h>
#include "mc.hpp"
#include "units.hpp"
using namespace units;
static int stack_fill;
static __attribute__((noinline)) void smear() {
    volatile uint8_t a[24576];
    if (stack_fill < 256) memset((void *)a, stack_fill, sizeof a);
    else dirty::fill((void *)a, sizeof a, stack_fill);
    asm volatile("" : : "r"(a) : "memory");
}
static const int fills[] = {0, 0xFF, 0xA5, 1, 1000, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271,
                            2001, 2002, 2003, 2004, 2006, 2008, 2010, 2016, 2020, 2024, 2030, 2032, 2060, 2064, 2128, 2136};
static const int NF = sizeof fills / sizeof *fills;
// v = family, algorithm, length, number of fills
void run_case(const mc::Case &c) {
    static uint64_t &ex = mc::count("executions");
    Unit u((int)c.v[0], (int)c.v[1], c.v[2]);
    mc::outcome(u.want.data(), u.want.size());
    for (int i = 0; i < c.v[3]; i++)
        for (int mix = 0; mix < 2; mix++) { // the same everywhere, or another on the stack
            fill() = dirty::fill_kind() = fills[i];
            stack_fill = fills[mix ? (i + 1) % NF : i];
            mallopt(M_PERTURB, 1 + i * 11);
            auto r = u.instance();
            before_call() = smear;
            Out got;
            try {
                for (auto &s : r->steps) s(got);
            }
            catch (const std::exception &e) {
                before_call() = nullptr;
                mc::fail(std::string("unexpected exception: ") + e.what());
            }
            before_call() = nullptr;
            ex++;
            u.compare(got, mc::strf(", memory filled with pattern %d (stack %d)", fills[i], stack_fill));
        }
    fill() = dirty::fill_kind() = 0xA5;
}
std::string describe(const mc::Case &c) { return label((int)c.v[0], (int)c.v[1], c.v[2]) + mc::strf(", %" PRId64 " memory fills", c.v[3]); }
void enumerate() {
    bool T = mc::thorough();
    each(T ? 6 : 3, T ? 700 : 150, [=](int f, int a, int64_t n) { mc::at(1, {f, a, n, T || f == PROGS || n % 10 == 3 ? NF : 4}); });
}
void selfcheck() { units::selfcheck(); }
