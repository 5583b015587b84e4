// C17: every interleaving of the steps of two programs on one thread, for every pair of programs; the same program twice
// with different data included; three contexts for the stateful ones.
#define DIRTY_NO_NEW
#include "mc.hpp"
#include "ops.hpp"
using namespace ops;

static void play(const std::vector<int> &prog, const std::vector<int> &var, const std::vector<int> &order) {
    static uint64_t &ex = mc::count("executions"), &tr = mc::count("transitions");
    std::vector<std::unique_ptr<Rec>> r;
    std::vector<Out> out(prog.size());
    std::vector<size_t> at(prog.size(), 0);
    for (size_t i = 0; i < prog.size(); i++) {
        r.emplace_back(new Rec(var[i], false));
        all()[(size_t)prog[i]].build(*r[i]);
    }
    for (int i : order) {
        tr++;
        r[(size_t)i]->steps[at[(size_t)i]++](out[(size_t)i]);
    }
    ex++;
    for (size_t i = 0; i < prog.size(); i++) {
        if (out[i] == want(prog[i], var[i])) continue;
        std::string how = "interleaved as";
        for (int k : order) how += mc::strf(" %d", k);
        for (size_t j = 0; j < prog.size(); j++) how += mc::strf("%s %zu = %s", j ? "," : ";", j, all()[(size_t)prog[j]].name.c_str());
        ops::check(prog[i], var[i], out[i], how);
    }
}
static size_t steps_of(int p) {
    static std::map<int, size_t> m;
    if (!m.count(p)) {
        Rec r(0, false);
        all()[(size_t)p].build(r);
        m[p] = r.steps.size();
    }
    return m[p];
}
static void interleave(const std::vector<int> &prog, const std::vector<int> &var, std::vector<size_t> left, std::vector<int> &order, int switches, int bound) {
    static uint64_t &st = mc::count("states");
    st++;
    bool any = false;
    for (size_t i = 0; i < left.size(); i++) {
        if (!left[i]) continue;
        any = true;
        bool sw = !order.empty() && order.back() != (int)i && left[(size_t)order.back()];
        if (switches + sw > bound) continue;
        left[i]--;
        order.push_back((int)i);
        interleave(prog, var, left, order, switches + sw, bound);
        order.pop_back();
        left[i]++;
    }
    if (!any) play(prog, var, order);
}
// kind 1: every interleaving of programs p and q with data a and b.  kind 2: three programs, up to a number of switches.
void run_case(const mc::Case &c) {
    std::vector<int> prog, var, order;
    std::vector<size_t> left;
    int n = c.kind == 1 ? 2 : 3;
    for (int i = 0; i < n; i++) {
        prog.push_back((int)c.v[i]);
        var.push_back((int)c.v[n + i]);
        left.push_back(steps_of(prog.back()));
        mc::outcome(want(prog[(size_t)i], var[(size_t)i]).data(), want(prog[(size_t)i], var[(size_t)i]).size());
    }
    interleave(prog, var, left, order, 0, (int)c.v[2 * n]);
}
std::string describe(const mc::Case &c) {
    int n = c.kind == 1 ? 2 : 3;
    std::string s = "every interleaving of";
    for (int i = 0; i < n; i++) s += mc::strf("%s %s (data %" PRId64 ")", i ? " with" : "", all()[(size_t)c.v[i]].name.c_str(), c.v[n + i]);
    return s + mc::strf(", up to %" PRId64 " switches", c.v[2 * n]);
}
void enumerate() {
    bool T = mc::thorough();
    int N = (int)all().size();
    for (int p = 0; p < N; p++)
        for (int q = p; q < N; q++) {
            bool same = p == q || all()[(size_t)p].name.substr(0, 6) == all()[(size_t)q].name.substr(0, 6);
            mc::at(1, {p, q, 0, 1, p == q ? 99 : same ? (T ? 8 : 4) : T ? 6 : 2});
            if (p == q || T) mc::at(1, {p, q, 0, 0, p == q ? 99 : 4});
            if (p == q) mc::at(1, {p, q, 2, 1, 99});
            // data that differs in one byte only: a result kept under too weak a key would be confused
            for (int tweak = 1; tweak <= 4 && p == q; tweak++) mc::at(1, {p, q, 0, tweak * 16, T ? 99 : 3});
            if (same && p != q && !T) mc::at(1, {p, q, 0, 0, 1});
        }
    for (int p = 0; p < N; p++) mc::at(2, {p, p, p, 0, 1, 2, T ? 5 : 3});
    if (T)
        for (int p = 0; p < N; p++)
            for (int q = 0; q < N; q += 7) mc::at(2, {p, q, p, 0, 1, 2, 3});
}
void selfcheck() {
    hash_selfcheck();
    base_selfcheck();
    bf_selfcheck();
}
