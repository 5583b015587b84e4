// C28: every unit (program, or length of a family) in one build of the library and harness; one job per build.
#define DIRTY_NO_NEW
#include "mc.hpp"
#include "units.hpp"
using namespace units;
void run_case(const mc::Case &c) {
    Unit u((int)c.v[0], (int)c.v[1], c.v[2]);
    auto r = u.instance();
    Out got;
    for (auto &s : r->steps) s(got);
    mc::count("executions")++;
    mc::outcome(got.data(), got.size());
    u.compare(got, "");
}
std::string describe(const mc::Case &c) { return label((int)c.v[0], (int)c.v[1], c.v[2]); }
void enumerate() {
    bool T = mc::thorough();
    each(T ? 12 : 4, T ? 1400 : 300, [](int f, int a, int64_t n) { mc::at(1, {f, a, n}); });
    mc::offsets([&] { each(1, T ? 300 : 72, [](int f, int a, int64_t n) { mc::at(1, {f, a, n}); }); });
}
void selfcheck() { units::selfcheck(); }
