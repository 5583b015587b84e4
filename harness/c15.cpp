// C15: small groups of calls on one codec object from two or three threads: every schedule, every access checked for a
// race, every result compared with what the call returns alone, deadlocks reported.
#define DIRTY_NO_NEW
#include "mc.hpp"
#include "units.hpp"
using namespace units;

struct Call {
    bool enc;
    int form; // encode: pointer, C string, std::string, SequentialData; decode: C string, std::string
    int64_t n;
};
static const Call calls[] = {{true, 0, 5}, {true, 0, 200}, {true, 0, 700}, {false, 0, 5}, {false, 0, 200}, {false, 0, 700}, {true, 2, 80}, {true, 3, 130}, {false, 1, 90}, {true, 1, 33}, {true, 0, 0}, {false, 1, 0}, {false, 0, -1}};
static const int NCALLS = sizeof calls / sizeof *calls;
struct Prepared {
    Call c;
    Bytes b;
    std::string text, s, want, got;
    std::unique_ptr<SequentialData> d;
};
static Prepared prepare(int e, int i, int salt) {
    Prepared p;
    p.c = calls[i];
    if (p.c.n < 0) { // text with padding in its middle and characters that belong to no alphabet
        p.text = "AB==CD\x80zz3";
        p.want = S(base_decode(e, p.text.c_str()));
        return p;
    }
    p.b = nonul(D(i * 7 + salt, salt, p.c.n));
    p.s = S(p.b);
    p.text = base_encode(e, p.b.data(), p.b.size());
    p.want = p.c.enc ? p.text : p.s;
    return p;
}
static void execute(AbstractBaseEncoding &o, Prepared &p) {
    if (p.c.enc) {
        std::string r = p.c.form == 0 ? LIB(o.encode(p.b.data(), p.b.size())) : p.c.form == 1 ? LIB(o.encode(p.s.c_str())) : p.c.form == 2 ? LIB(o.encode(p.s)) : LIB(o.encode(*p.d));
        p.got = r;
    }
    else {
        SequentialData r = p.c.form == 0 ? LIB(o.decode(p.text.c_str())) : LIB(o.decode(p.text));
        p.got = S(r);
    }
}
// v = encoding, earlier call (-1: none), then for each thread the number of calls and up to 3 calls
struct Group {
    int e, before;
    std::vector<std::vector<int>> t;
    explicit Group(const mc::Case &c) : e((int)c.v[0]), before((int)c.v[1]) {
        for (int i = 2; i < c.n;) {
            t.emplace_back();
            for (int k = (int)c.v[i++]; k > 0; k--) t.back().push_back((int)c.v[i++]);
        }
    }
};
static std::string call_name(const Call &c) {
    static const char *const f[] = {"", " as C string", " as std::string", " as SequentialData"};
    if (c.n < 0) return "decode of odd text";
    return mc::strf("%s %" PRId64 " bytes%s", c.enc ? "encode" : "decode", c.n, c.enc ? f[c.form] : c.form ? " as std::string" : "");
}
std::string describe(const mc::Case &c) {
    Group g(c);
    std::string s = mc::strf("one Base%s object%s:", enc_name[g.e], g.before < 0 ? "" : (" that has done " + call_name(calls[g.before])).c_str());
    for (size_t t = 0; t < g.t.size(); t++) {
        s += t ? " || " : " ";
        for (size_t i = 0; i < g.t[t].size(); i++) s += (i ? "; " : "") + call_name(calls[g.t[t][i]]);
    }
    return s;
}
void run_case(const mc::Case &c) {
    static uint64_t &ex = mc::count("executions"), &tr = mc::count("transitions"), &states = mc::count("states"), &acc = mc::count("accesses_checked"), &cap = mc::count("capped");
    Group g(c);
    std::unique_ptr<AbstractBaseEncoding> o;
    std::vector<std::vector<Prepared>> p;
    std::vector<std::string> bad(g.t.size());
    tsrt::Stats st;
    tsrt::time_scale = mc::thorough() ? 12 : 1;
    tsrt::on_schedule = [] { mc::tick(); };
    std::string why = tsrt::explore(
        (int)g.t.size(),
        [&] {
            o = bapi::make(g.e);
            if (g.before >= 0) {
                Prepared b = prepare(g.e, g.before, 9);
                if (b.c.form == 3) b.d.reset(new SequentialData(b.b.data(), b.b.size()));
                execute(*o, b);
            }
            for (size_t t = 0; t < g.t.size(); t++) {
                p.emplace_back();
                for (size_t i = 0; i < g.t[t].size(); i++) {
                    p[t].push_back(prepare(g.e, g.t[t][i], (int)(t * 3 + i)));
                    auto &x = p[t].back();
                    if (x.c.enc && x.c.form == 3) x.d.reset(new SequentialData(x.b.data(), x.b.size()));
                }
            }
        },
        [&](int t) {
            try {
                for (auto &x : p[(size_t)t]) execute(*o, x);
            }
            catch (const std::exception &e) {
                bad[(size_t)t] = std::string("unexpected exception: ") + e.what();
            }
            tsrt_in_lib = 0;
        },
        [&] {
            for (size_t t = 0; t < p.size(); t++) {
                if (!bad[t].empty()) tsrt::fail(bad[t].c_str());
                for (auto &x : p[t])
                    if (x.got != x.want)
                        tsrt::fail(mc::strf("thread %zu: %s gives %s, alone it gives %s", t + 1, call_name(x.c).c_str(), mc::hex(x.got.data(), x.got.size(), 40).c_str(), mc::hex(x.want.data(), x.want.size(), 40).c_str()).c_str());
            }
            // and the object is still good
            Prepared z = prepare(g.e, 1, 5), y = prepare(g.e, 4, 6);
            execute(*o, z), execute(*o, y);
            if (z.got != z.want || y.got != y.want) tsrt::fail("a call made after the threads ended gives a wrong result");
            o.reset();
        },
        -1, 20000, st);
    ex += st.schedules, tr += st.points, states += st.states, acc += st.accesses, cap += st.capped;
    if (st.capped) mc::count(mc::strf("groups_cut_at_%d_preemptions", st.bound).c_str())++;
    for (auto &t : g.t) for (int i : t) mc::outcome(&i, sizeof i, (uint64_t)g.e);
    uint64_t h = tsrt::schedule_hash() + (uint64_t)c.v[1] * 31;
    mc::outcome(&h, sizeof h, (uint64_t)g.e);
    CHECK(why.empty(), "%s: %s", describe(c).c_str(), why.c_str());
}
void enumerate() {
    bool T = mc::thorough();
    for (int e = 0; e < ENC_COUNT; e++) {
        for (int b = -1; b < (T ? 6 : 2); b++)
            for (int i = 0; i < NCALLS; i++)
                for (int j = i; j < NCALLS; j++) mc::at(1, {e, b, 1, i, 1, j});
        for (int i = 0; i < 6; i++)
            for (int j = 0; j < 6; j++)
                for (int k = 0; k < (T ? NCALLS : 6); k++) mc::at(1, {e, -1, 2, i, j, 1, k});
        for (int i = 0; i < 6; i++)
            for (int j = i; j < 6; j++)
                for (int k = j; k < (T ? NCALLS : 6); k++) mc::at(1, {e, -1, 1, i, 1, j, 1, k});
        for (int i = 0; i < 6; i++)
            for (int j = 0; j < 6; j++)
                for (int k = i; k < 6; k++)
                    for (int l = 0; l < 6; l++)
                        if (T || (i % 3 != j % 3 && k % 3 != l % 3)) mc::at(1, {e, -1, 2, i, j, 2, k, l});
        if (T)
            for (int i = 0; i < 6; i++)
                for (int j = 0; j < 6; j++)
                    for (int k = 0; k < 6; k++)
                        for (int l = k; l < 6; l++) mc::at(1, {e, -1, 2, i, j, 1, k, 1, l});
        // as many calls as three threads can make in this bound
        for (int i = 0; i < 2; i++) mc::at(1, {e, -1, 2, 0, 2, 2, 1, 5, 2, 4 - i, 0}), mc::at(1, {e, -1, 3, 0, 1, 2, 3, 2 - i, 1, 0});
    }
}
void selfcheck() {
    hash_selfcheck();
    base_selfcheck();
}
