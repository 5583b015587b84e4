// C31: every unit with inputs and outputs of exactly the documented size. Built twice: with AddressSanitizer and exact
// heap blocks, and (OPS_GUARD) plain, with inputs in read-only memory and every buffer against a page nobody may touch.
#define DIRTY_NO_NEW
#include "mc.hpp"
#include "units.hpp"
using namespace units;
void run_case(const mc::Case &c) {
    static uint64_t &ex = mc::count("executions");
#ifdef OPS_GUARD
    ops::guard_side() = (int)c.v[3];
#endif
    Unit u((int)c.v[0], (int)c.v[1], c.v[2]);
    auto r = u.instance();
    Out got;
    for (auto &s : r->steps) s(got);
    ex++;
    mc::outcome(got.data(), got.size());
    std::string bad = r->changed_input();
    CHECK(bad.empty(), "%s: %s", describe(c).c_str(), bad.c_str());
    u.compare(got, "");
}
std::string describe(const mc::Case &c) { return label((int)c.v[0], (int)c.v[1], c.v[2]) + (c.v[3] ? ", forbidden page before each buffer" : ", nothing after each buffer"); }
void enumerate() {
    bool T = mc::thorough();
#ifdef OPS_GUARD
    int sides = 2;
#else
    int sides = 1;
#endif
    for (int side = 0; side < sides; side++) each(T ? 12 : 5, T ? 2300 : 420, [=](int f, int a, int64_t n) { mc::at(1, {f, a, n, side}); });
    for (int k = 11; k <= (T ? 20 : 16); k++)
        for (int d = -1; d <= 1; d++)
            for (int f : {(int)HASH, (int)HMAC, (int)BASE, (int)HEX, (int)BLOWFISH, (int)SEQ, (int)FILEH, (int)BASETEXT})
                for (int a = 0; a < algs(f); a++) mc::at(1, {f, a, (1 << k) + d, 0});
}
void selfcheck() { units::selfcheck(); }
