// C16: programs over every public operation, each in a thread of its own and sharing nothing: every schedule of the
// threads, every access checked for a race, every result compared with the single-threaded one. Each schedule runs in a
// new process, in which the library has (cold) or has not (warm) been used before.
#define DIRTY_NO_NEW
#include "mc.hpp"
#include "units.hpp"
using namespace units;

struct Body {
    int f, a;
    int64_t n;
};
static void threads(const std::vector<Body> &b, bool warm, const std::string &how) {
    static uint64_t &ex = mc::count("executions"), &tr = mc::count("transitions"), &states = mc::count("states"), &acc = mc::count("accesses_checked"), &cap = mc::count("capped");
    std::vector<Unit> u;
    for (auto &x : b) u.emplace_back(x.f, x.a, x.n);
    clk::now() = NOW;
    std::vector<std::unique_ptr<Rec>> r;
    std::vector<Out> got(b.size());
    std::vector<std::string> bad(b.size());
    tsrt::Stats st;
    tsrt::time_scale = mc::thorough() ? 12 : 1;
    tsrt::on_schedule = [] { mc::tick(); };
    std::string why = tsrt::explore(
        (int)b.size(),
        [&] {
            if (warm)
                for (auto &x : u) {
                    auto w = x.instance();
                    Out o;
                    for (auto &s : w->steps) s(o);
                }
            for (auto &x : u) r.push_back(x.instance());
        },
        [&](int t) {
            try {
                for (auto &s : r[(size_t)t]->steps) s(got[(size_t)t]);
            }
            catch (const std::exception &e) {
                bad[(size_t)t] = std::string("unexpected exception: ") + e.what();
            }
            tsrt_in_lib = 0;
        },
        [&] {
            for (size_t t = 0; t < b.size(); t++) {
                if (!bad[t].empty()) tsrt::fail(bad[t].c_str());
                try {
                    u[t].compare(got[t], mc::strf(" in thread %zu", t + 1));
                }
                catch (const mc::Failure &f) {
                    tsrt::fail(f.msg.c_str());
                }
            }
        },
        -1, 3000, st);
    ex += st.schedules, tr += st.points, states += st.states, acc += st.accesses, cap += st.capped;
    if (st.capped) mc::count(mc::strf("groups_cut_at_%d_preemptions", st.bound).c_str())++;
    uint64_t h = tsrt::schedule_hash();
    mc::outcome(how.data(), how.size(), h);
    CHECK(why.empty(), "%s: %s", how.c_str(), why.c_str());
}
static std::vector<Body> bodies(const mc::Case &c) {
    if (c.kind == 1) return {{PROGS, (int)c.v[0], c.v[2]}, {PROGS, (int)c.v[1], c.v[3]}};
    if (c.kind == 2) return {{(int)c.v[0], (int)c.v[1], c.v[2]}, {(int)c.v[0], (int)c.v[1], c.v[3]}};
    return {{PROGS, (int)c.v[0], 0}, {PROGS, (int)c.v[1], 1}, {PROGS, (int)c.v[0], 2}};
}
std::string describe(const mc::Case &c) {
    std::string s;
    for (auto &b : bodies(c)) s += (s.empty() ? "" : " || ") + label(b.f, b.a, b.n);
    return s + (c.v[4] ? " (used before)" : " (first use)");
}
void run_case(const mc::Case &c) { threads(bodies(c), c.v[4], describe(c)); }
void enumerate() {
    bool T = mc::thorough();
    int N = (int)all().size();
    for (int p = 0; p < N; p++)
        for (int q = p; q < N; q++)
            for (int w = 0; w < (T || p == q ? 2 : 1); w++) mc::at(1, {p, q, 0, 1, w});
    for (int p = 0; p < N; p++) {
        mc::at(1, {p, p, 0, 0, 0});
        mc::at(1, {p, p, 2, 3, 0});
        mc::at(3, {p, p, 0, 0, 0});
        mc::at(3, {p, (p + 1) % N, 0, 0, 0});
    }
    for (int f = 1; f < FAMILIES; f++)
        for (int a = 0; a < algs(f); a++)
            for (int64_t n : {0, 1, 9, 33, 64, 130, 260, 1100, 5000})
                for (int64_t m : {1, 70, 1030}) mc::at(2, {f, a, n, m, n == 64});
    if (T)
        for (int f = 1; f < FAMILIES; f++)
            for (int a = 0; a < algs(f); a++)
                for (int64_t n = 0; n < 300; n++) mc::at(2, {f, a, n, n + 1, n % 2});
}
void selfcheck() { units::selfcheck(); }
