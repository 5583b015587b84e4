// C21: every history up to a depth of clock movements, settings and calls on one TOTP object, including a clock that
// ticks in the middle of a call, against RFC 6238 for the clock and settings of that moment.
#include "mc.hpp"
#include <unordered_map>
#include "api.hpp"
#include "clock.hpp"
#include "dirty.hpp"
#include "libpgfe/exceptions.hpp"
#include "libpgfe/otp/totp.hpp"
#include "otpcodes.hpp"
#include "ref/base.hpp"
using namespace ref;
using libpgfe::AbstractOTP;
using libpgfe::HOTP;
using libpgfe::SequentialData;
using libpgfe::TOTP;

enum { CLK_1, CLK_IV, CLK_FAR, CLK_BACK1, CLK_BACK_IV, IV1, IV30, IV60, T0_A, T0_B, SECRET_A, SECRET_B32, SET_COUNTER, GEN6, GEN8_HOTP, GEN_ABS, STR7, STR_ABS, GEN_TICK, REMAIN, NOPS };
static const char *const op_name[NOPS] = {"clock +1", "clock to the next interval", "clock +1 day", "clock -1", "clock back one interval", "set_interval(1)", "set_interval(30)", "set_interval(60)",
                                          "set_initial_time(0)", "set_initial_time(1000000007)", "set_secret(10 bytes)", "set_secret(base32)", "set_counter(5)", "generate()",
                                          "HOTP& generate(8)", "AbstractOTP& generate(6)", "generate_str(7)", "AbstractOTP& generate_str(6)",
                                          "generate() while the clock ticks before its second read", "remaining_time()"};
static const int64_t START = 1600000019;
struct Model {
    bool has = false;
    Bytes key;
    int64_t iv = 30, t0 = 0;
};
static std::unordered_map<uint64_t, int64_t> memo;
static uint64_t counter(const Model &m, int64_t t) { return (uint64_t)(t - m.t0) / (uint64_t)m.iv; }
static int64_t code(int a, const Model &m, uint64_t ctr, int d) {
    uint64_t h = mc::fnv(m.key.data(), m.key.size(), mc::fnv(&ctr, 8, (uint64_t)(a * 32 + d)));
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, hotp(a, m.key.data(), m.key.size(), ctr, d)).first;
    return it->second;
}
static Bytes secret(int i, size_t n) { // zero bytes inside
    Bytes b = pattern(4 + i, n);
    for (auto &x : b) if (!x) x = 1;
    if (n > 3 && i % 3 != 2) {
        if (i % 2) b[0] = 0;
        b[n / 3] = b[n / 2] = 0;
    }
    return b;
}
static std::string text(const int *seq, int n, int form) {
    std::string s = mc::strf("constructor form %d, clock %" PRId64, form, START);
    for (int i = 0; i < n; i++) s += std::string(", ") + op_name[seq[i]];
    return s;
}
static void step(int a, TOTP &o, Model &m, const int *seq, int i, int form) {
    mc::count("transitions")++;
    const HOTP &h = o;
    AbstractOTP &base = o;
    clk::arm(-1);
    int op = seq[i];
    switch (op) {
    case CLK_1: clk::now() += 1; return;
    case CLK_IV: clk::now() = m.t0 + (int64_t)(counter(m, clk::now()) + 1) * m.iv; return;
    case CLK_FAR: clk::now() += 86400; return;
    case CLK_BACK1: clk::now() -= 1; return;
    case CLK_BACK_IV: clk::now() -= m.iv; return;
    case IV1: o.set_interval(1), m.iv = 1; return;
    case IV30: o.set_interval(30), m.iv = 30; return;
    case IV60: o.set_interval(60), m.iv = 60; return;
    case T0_A: o.set_initial_time(0), m.t0 = 0; return;
    case T0_B: o.set_initial_time(1000000007), m.t0 = 1000000007; return;
    case SECRET_A:
        m.key = secret(i, 10), m.has = true;
        i % 2 ? o.set_secret(m.key.data(), m.key.size()) : base.set_secret(m.key.data(), m.key.size());
        return;
    case SECRET_B32: {
        m.key = secret(i, 20), m.has = true;
        std::string t = base_encode(E32, m.key.data(), m.key.size());
        i % 2 ? o.set_secret_from_base32(t.c_str()) : o.set_secret(t.c_str(), true);
        return;
    }
    case SET_COUNTER: i % 2 ? o.set_counter(5) : base.set_counter(5); return; // TOTP derives its counter from the clock
    case REMAIN: o.remaining_time(); o.update_time(); return;
    }
    mc::count("executions")++;
    int d = op == GEN8_HOTP ? 8 : op == STR7 ? 7 : 6;
    uint64_t c1 = counter(m, clk::now());
    if (op == GEN_TICK) clk::arm(1);
    std::string s;
    uint64_t got = 0;
    bool threw = false;
    try {
        if (op == GEN6 || op == GEN_TICK) got = o.generate();
        else if (op == GEN8_HOTP) got = h.generate(8);
        else if (op == GEN_ABS) got = base.generate(6);
        else if (op == STR7) s = o.generate_str(7);
        else s = base.generate_str(6);
    }
    catch (const libpgfe::NotInitializedException &) {
        threw = true;
    }
    CHECK(threw == !m.has, "TOTP(%s), %s: %s", alg_name[a], text(seq, i + 1, form).c_str(), threw ? "threw although a secret is set" : "generated without a secret");
    if (threw) return;
    uint64_t c2 = counter(m, clk::now()), used = c1;
    int64_t want = code(a, m, c1, d);
    if (want < 0) return; // MD5 window outside the digest: C18
    if (!s.empty()) {
        char t[32];
        snprintf(t, sizeof t, "%0*" PRId64, d, want);
        CHECK(s == t, "TOTP(%s), %s at clock %" PRId64 ": \"%s\", want \"%s\"", alg_name[a], text(seq, i + 1, form).c_str(), (int64_t)clk::now(), s.c_str(), t);
    }
    else {
        bool ok = got == (uint64_t)want;
        if (!ok && c2 != c1 && got == (uint64_t)code(a, m, c2, d)) ok = true, used = c2;
        CHECK(ok, "TOTP(%s), %s at clock %" PRId64 " (interval %" PRId64 ", start %" PRId64 "): %" PRIu64 ", want %" PRId64, alg_name[a], text(seq, i + 1, form).c_str(), (int64_t)clk::now(), m.iv,
              m.t0, got, want);
    }
    mc::outcome(&want, 8, (uint64_t)a);
    clk::arm(-1);
    int64_t left = (int64_t)(used + 1) * m.iv + m.t0 - clk::now();
    CHECK(o.remaining_time() == left, "TOTP(%s), %s at clock %" PRId64 " (interval %" PRId64 ", start %" PRId64 "): remaining time %" PRId64 ", want %" PRId64, alg_name[a],
          text(seq, i + 1, form).c_str(), (int64_t)clk::now(), m.iv, m.t0, (int64_t)o.remaining_time(), left);
}
static void play(int a, int form, int fill, const int *seq, int n) {
    dirty::fill_kind() = fill;
    clk::arm(-1);
    clk::now() = START;
    auto go = [&](TOTP &o, Model m) {
        for (int i = 0; i < n; i++) step(a, o, m, seq, i, form);
        CHECK(o.interval() == (uint32_t)m.iv && o.initial_time() == m.t0 && o.algorithm() == api::choice[a], "TOTP(%s), %s: reports interval %u, start %" PRId64 ", algorithm %d", alg_name[a],
              text(seq, n, form).c_str(), o.interval(), (int64_t)o.initial_time(), (int)o.algorithm());
        int last[1] = {GEN6};
        step(a, o, m, last, 0, form);
    };
    Model m;
    m.has = form > 0;
    m.iv = form == 0 || form == 2 ? 30 : 45;
    if (m.has) m.key = form == 2 ? Bytes(12, 'k') : secret(0, 12);
    std::string s((const char *)m.key.data(), m.key.size());
    SequentialData sd(m.key.data(), m.key.size());
    if (form == 0) {
        dirty::Object<TOTP> o(fill, (pgfe_totp_interval_t)30, api::choice[a]);
        go(*o, m);
    }
    else if (form == 1) {
        dirty::Object<TOTP> o(fill, (const pgfe_encode_t *)m.key.data(), m.key.size(), (pgfe_totp_interval_t)45, api::choice[a]);
        go(*o, m);
    }
    else if (form == 2) {
        dirty::Object<TOTP> o(fill, s.c_str(), (pgfe_totp_interval_t)30, api::choice[a]);
        go(*o, m);
    }
    else if (form == 3) {
        dirty::Object<TOTP> o(fill, s, (pgfe_totp_interval_t)45, api::choice[a]);
        go(*o, m);
    }
    else {
        dirty::Object<TOTP> o(fill, sd, (pgfe_totp_interval_t)45, api::choice[a]);
        go(*o, m);
    }
}
static void dfs(int a, int form, int fill, int *seq, int n, int depth) {
    mc::count("states")++;
    if (n == depth) {
        play(a, form, fill, seq, n);
        return;
    }
    for (int op = 0; op < NOPS; op++) {
        seq[n] = op;
        dfs(a, form, fill, seq, n + 1, depth);
    }
}
// One secret of any length through every constructor and setter.
static void lengths(int a, size_t n) {
    dirty::fill_kind() = 0xA5;
    for (int way = 0; way < 14; way++) {
        static const char *const way_name[14] = {"TOTP(ptr)", "TOTP(C string)", "TOTP(std::string)", "TOTP(SequentialData)", "set_secret(ptr)", "set_secret(C string)", "set_secret(C string, base32)",
            "set_secret(std::string)", "set_secret(std::string, base32)", "set_secret(SequentialData)", "set_secret_from_base32(C string)", "set_secret_from_base32(std::string)",
            "AbstractOTP.set_secret(ptr)", "AbstractOTP.set_secret(std::string)"};
        bool cs = way == 1 || way == 5;
        Model m;
        m.iv = 30;
        m.key = secret(0, n);
        if (cs) for (auto &x : m.key) if (!x) x = 'q';
        Bytes kz = m.key;
        kz.push_back(0);
        Exact x(m.key.data(), n), xz(kz.data(), n + 1);
        std::string s((const char *)m.key.data(), n), b32 = base_encode(E32, m.key.data(), n, way % 2);
        SequentialData sd(m.key.data(), n);
        auto done = [&](TOTP &o) {
            memset(x.p, 0xEE, x.n);
            memset(xz.p, 0xEE, xz.n);
            clk::arm(-1);
            clk::now() = START + (int64_t)n;
            mc::count("executions")++;
            int64_t want = code(a, m, counter(m, clk::now()), 8);
            uint64_t got = o.generate(8);
            mc::outcome(&got, 8, (uint64_t)a);
            CHECK(want < 0 || got == (uint64_t)want, "TOTP(%s), %s with a secret of %zu bytes%s: %" PRIu64 ", want %" PRId64, alg_name[a], way_name[way], n, cs ? "" : " with zero bytes inside", got, want);
        };
        if (way == 0) { dirty::Object<TOTP> o(0xA5, (const pgfe_encode_t *)x.p, n, (pgfe_totp_interval_t)30, api::choice[a]); done(*o); continue; }
        if (way == 1) { dirty::Object<TOTP> o(0xA5, (const char *)xz.p, (pgfe_totp_interval_t)30, api::choice[a]); done(*o); continue; }
        if (way == 2) { dirty::Object<TOTP> o(0xA5, s, (pgfe_totp_interval_t)30, api::choice[a]); done(*o); continue; }
        if (way == 3) { dirty::Object<TOTP> o(0xA5, sd, (pgfe_totp_interval_t)30, api::choice[a]); done(*o); continue; }
        dirty::Object<TOTP> h(0xA5, (pgfe_totp_interval_t)30, api::choice[a]);
        TOTP &o = *h;
        AbstractOTP &base = o;
        switch (way) {
        case 4: o.set_secret(x.p, n); break;
        case 5: o.set_secret((const char *)xz.p); break;
        case 6: o.set_secret(b32.c_str(), true); break;
        case 7: o.set_secret((const std::string &)s); break;
        case 8: o.set_secret((const std::string &)b32, true); break;
        case 9: o.set_secret(sd); break;
        case 10: o.set_secret_from_base32(b32.c_str()); break;
        case 11: o.set_secret_from_base32((const std::string &)b32); break;
        case 12: base.set_secret(x.p, n); break;
        default: base.set_secret((const std::string &)s); break;
        }
        done(o);
    }
}
// Arguments left out: SHA-1, 30 seconds and 6 digits.
static void defaults(size_t n) {
    Bytes k = pattern(6, n);
    for (auto &x : k) if (!x) x = 'k';
    std::string s((const char *)k.data(), n);
    SequentialData sd(k.data(), n);
    clk::arm(-1);
    clk::now() = START;
    for (int form = 0; form < 9; form++) {
        std::unique_ptr<TOTP> o(form == 0 ? new TOTP() : form == 1 ? new TOTP(k.data(), n) : form == 2 ? new TOTP(s.c_str()) : form == 3 ? new TOTP(s) : form == 4 ? new TOTP(sd)
                                : form == 5 ? new TOTP(k.data(), n, 45) : form == 6 ? new TOTP(s.c_str(), 45) : form == 7 ? new TOTP(s, 45) : new TOTP(sd, 45));
        if (form == 0) o->set_secret(s.c_str());
        int64_t iv = form < 5 ? 30 : 45;
        CHECK(o->interval() == iv && o->initial_time() == 0, "TOTP built by form %d: interval %" PRId64 ", initial time %" PRId64, form, (int64_t)o->interval(), (int64_t)o->initial_time());
        const AbstractOTP &base = *o;
        for (int64_t t : {(int64_t)0, iv - 1, iv, iv * 2 - 1, iv * 2, (int64_t)1700000000, (int64_t)1700000029, (int64_t)1700000031}) {
            clk::now() = t;
            int64_t w = hotp(A_SHA1, k.data(), n, (uint64_t)(t / iv), 6);
            char x[32];
            snprintf(x, sizeof x, "%06" PRId64, w);
            mc::count("executions")++;
            CHECK(o->generate() == (uint64_t)w && base.generate() == (uint64_t)w && o->generate_str() == x && base.generate_str() == x && o->remaining_time() == iv - t % iv && o->update_time() == t,
                  "TOTP built by form %d, secret of %zu bytes, clock %" PRId64 ": generate() = %" PRIu64 ", want %s", form, n, t, (uint64_t)o->generate(), x);
        }
    }
}
// One object asked at one point (interval, start, clock) and then at every other point, the settings changed in between.
// Clocks stay from 1970 to 2255, the end of 64-bit nanoseconds: an object may read the clock through any of the system's interfaces.
static const int64_t LAST = 9000000000;
struct Point { int64_t iv, t0, now; };
static std::vector<Point> points(bool all) {
    std::vector<Point> v;
    for (int64_t iv : {1LL, 30LL, 255LL, 256LL, 32768LL, 65535LL, 65536LL, 86400LL, 16777217LL, 0x7FFFFFFFLL})
        for (int64_t t0 : {0LL, 59LL, -1LL, -100000LL, 1LL << 31, (1LL << 32) + 5, (long long)LAST - (1 << 25)}) {
            if (!all && iv != 1 && iv != 30 && iv != 65536 && iv != 0x7FFFFFFF) continue;
            if (!all && t0 != 0 && t0 != 59 && t0 != -100000 && t0 != (1LL << 32) + 5) continue;
            for (int64_t k : {0LL, 1LL, 2LL, 256LL, 65536LL, 1LL << 24, 1LL << 31, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 1})
                for (int64_t o : {(int64_t)0, iv / 2, iv - 1}) {
                    if (!all && (o == iv / 2 || k == 2 || k == 256 || k == 65536)) continue;
                    if (t0 + k * iv + o >= 0 && t0 + k * iv + o <= LAST) v.push_back({iv, t0, t0 + k * iv + o});
                }
        }
    return v;
}
static void ask(int a, TOTP &o, const Model &m, const std::string &before) {
    const AbstractOTP &base = o;
    int64_t now = clk::now(), want = code(a, m, counter(m, now), 8), left = m.iv - (now - m.t0) % m.iv;
    mc::count("executions")++;
    uint64_t g = o.generate(8);
    int64_t r = o.remaining_time(), u = o.update_time();
    std::string t = base.generate_str(8);
    char w[32];
    snprintf(w, sizeof w, "%08" PRId64, want);
    CHECK(g == (uint64_t)want && t == w && r == left && o.remaining_time() == left && u == now && o.interval() == (uint64_t)m.iv && o.initial_time() == m.t0,
          "TOTP(%s)%s, interval %" PRId64 ", start %" PRId64 ", clock %" PRId64 ": code %" PRIu64 ", \"%s\", want %s; remaining %" PRId64 ", want %" PRId64 "; update_time() %" PRId64
          ", interval() %" PRId64 ", initial_time() %" PRId64, alg_name[a], before.c_str(), m.iv, m.t0, now, g, t.c_str(), w, r, left, u, (int64_t)o.interval(), (int64_t)o.initial_time());
    mc::outcome(&want, 8, (uint64_t)left);
}
static void grid(int a, size_t first, bool all) {
    auto all_points = points(true), other = points(all);
    Model m;
    m.has = true;
    m.key = secret(0, 20);
    clk::arm(-1);
    const Point &p = all_points[first];
    auto set = [&](TOTP &o, const Point &q, int order) {
        if (order) o.set_initial_time(q.t0);
        o.set_interval((pgfe_totp_interval_t)q.iv);
        if (!order) o.set_initial_time(q.t0);
        m.iv = q.iv, m.t0 = q.t0, clk::now() = q.now;
    };
    TOTP fresh(m.key.data(), m.key.size(), (pgfe_totp_interval_t)p.iv, api::choice[a]);
    fresh.set_initial_time(p.t0);
    m.iv = p.iv, m.t0 = p.t0, clk::now() = p.now;
    ask(a, fresh, m, "");
    TOTP o(m.key.data(), m.key.size(), 30, api::choice[a]);
    int k = 0;
    for (auto &q : other) {
        set(o, p, k++ & 1);
        ask(a, o, m, ", one object");
        set(o, q, k & 1);
        ask(a, o, m, mc::strf(" after interval %" PRId64 ", start %" PRId64 ", clock %" PRId64, p.iv, p.t0, p.now));
    }
}
// kind 6: v = alg, what, count: one object, the clock a second on before each of count codes (0), or a setting changed (1)
static void longrun(int a, int what, uint64_t count) {
    Model m;
    m.has = true;
    m.key = secret(0, 20);
    clk::arm(-1);
    clk::now() = START;
    TOTP o(m.key.data(), m.key.size(), 30, api::choice[a]);
    for (uint64_t i = 1; i <= count; i++) {
        mc::count("transitions")++;
        if (i % 1024 == 0) mc::tick();
        if (what == 0) clk::now()++;
        else if (i % 3 == 0) o.set_interval((pgfe_totp_interval_t)(m.iv = i % 2 ? 30 : 60));
        else if (i % 3 == 1) o.set_initial_time(m.t0 = (int64_t)(i % 10));
        else m.key = secret((int)(i % 3), 20 + i % 5), o.set_secret(m.key.data(), m.key.size());
        int64_t now = clk::now(), want = code(a, m, counter(m, now), 8), left = m.iv - (now - m.t0) % m.iv;
        uint64_t g = o.generate(8);
        int64_t r = o.remaining_time();
        mc::count("executions")++;
        if (want < 0) want = (int64_t)g; // MD5 with a window outside the digest: C18
        CHECK(g == (uint64_t)want && r == left && o.update_time() == now, "TOTP(%s), code number %" PRIu64 ", interval %" PRId64 ", start %" PRId64 ", clock %" PRId64 ": %" PRIu64 ", want %" PRId64 "; remaining %" PRId64 ", want %" PRId64,
              alg_name[a], i, m.iv, m.t0, now, g, want, r, left);
    }
}
// kind 7: v = alg, zone, zone: one object, the process moved from zone to zone, the clock around their changes
static void zones(int a, int z1, int z2) {
    Model m;
    m.has = true;
    m.key = secret(0, 20);
    clk::arm(-1);
    clk::now() = START;
    clk::zone(z1);
    TOTP o(m.key.data(), m.key.size(), 30, api::choice[a]);
    for (time_t p : clk::zone_points)
        for (int64_t off : {-86400, -3600, -1, 0, 1, 3599, 3600, 86400, 182 * 86400})
            for (int64_t iv : {30, 3600, 86400}) {
                clk::now() = p + off;
                o.set_interval((pgfe_totp_interval_t)(m.iv = iv));
                o.set_initial_time(m.t0 = iv == 3600 ? 946684801 : 0);
                clk::zone(z1);
                ask(a, o, m, mc::strf(" with TZ=%s", clk::zones[z1]));
                clk::zone(z2);
                ask(a, o, m, mc::strf(" with TZ=%s after TZ=%s", clk::zones[z2], clk::zones[z1]));
            }
}
// kind 1: v = alg, form, fill, depth, first op, second op.  kind 2: v = alg: codes with every number of leading zeros
void run_case(const mc::Case &c) {
    memo.clear();
    if (c.kind == 7) return zones((int)c.v[0], (int)c.v[1], (int)c.v[2]);
    clk::zone((int)(mc::fnv(&c.v[0], sizeof c.v[0] * 6) % clk::nzones));
    if (c.kind == 2) {
        int a = (int)c.v[0];
        std::string s = "12345678901234567890";
        clk::arm(-1);
        clk::now() = START;
        TOTP o(s, 30, api::choice[a]);
        const AbstractOTP &base = o;
        Bytes k(s.begin(), s.end());
        for (auto &r : rare_codes)
            for (int d = 1; d <= 10; d++) {
                const int64_t iv = (int64_t)r.counter <= LAST / 30 - 1 ? 30 : 2;
                o.set_interval((pgfe_totp_interval_t)iv);
                clk::now() = (int64_t)r.counter * iv + iv / 2;
                int64_t want = hotp(a, k.data(), k.size(), r.counter, d);
                if (want < 0) continue;
                mc::count("executions")++;
                char t[32];
                snprintf(t, sizeof t, "%0*" PRId64, d, want);
                uint64_t g = o.generate((uint8_t)d), gb = base.generate((uint8_t)d);
                std::string x = o.generate_str((uint8_t)d), xb = base.generate_str((uint8_t)d);
                CHECK(g == (uint64_t)want && gb == g && x == t && xb == t, "TOTP(%s), RFC 4226 secret, interval %" PRId64 ", clock %" PRId64 ", %d digits: %" PRIu64 " and \"%s\" (through the base class %" PRIu64 " and \"%s\"), want \"%s\"",
                      alg_name[a], iv, (int64_t)clk::now(), d, g, x.c_str(), gb, xb.c_str(), t);
            }
        return;
    }
    if (c.kind == 4) return defaults((size_t)c.v[0]);
    if (c.kind == 6) return longrun((int)c.v[0], (int)c.v[1], (uint64_t)c.v[2]);
    if (c.kind == 5) return grid((int)c.v[0], (size_t)c.v[1], c.v[2]);
    if (c.kind == 3) return lengths((int)c.v[0], (size_t)c.v[1]);
    int seq[12] = {(int)c.v[4], (int)c.v[5]};
    dfs((int)c.v[0], (int)c.v[1], (int)c.v[2], seq, 2, (int)c.v[3]);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 6) return mc::strf("TOTP(%s): %" PRId64 " codes of one object, %s", alg_name[c.v[0]], c.v[2], c.v[1] ? "a setting changed before each" : "the clock a second on before each");
    if (c.kind == 7) return mc::strf("TOTP(%s): one object with TZ=%s and TZ=%s in turn", alg_name[c.v[0]], clk::zones[c.v[1]], clk::zones[c.v[2]]);
    if (c.kind == 2) return mc::strf("TOTP(%s): codes with every number of leading zeros, 1 to 10 digits", alg_name[c.v[0]]);
    if (c.kind == 4) return mc::strf("TOTP with default arguments, secret of %" PRId64 " bytes", c.v[0]);
    if (c.kind == 5) {
        Point p = points(true)[(size_t)c.v[1]];
        return mc::strf("TOTP(%s) at interval %" PRId64 ", start %" PRId64 ", clock %" PRId64 " and then at every point", alg_name[c.v[0]], p.iv, p.t0, p.now);
    }
    if (c.kind == 3) return mc::strf("TOTP(%s): a secret of %" PRId64 " bytes through every constructor and setter", alg_name[c.v[0]], c.v[1]);
    return mc::strf("TOTP(%s), constructor form %" PRId64 ", memory filled with %" PRId64 ": every history of %" PRId64 " steps that begins %s, %s", alg_name[c.v[0]], c.v[1], c.v[2], c.v[3],
                    op_name[c.v[4]], op_name[c.v[5]]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int a : {A_SHA1, A_SHA256, A_SHA512})
        for (int z = 0; z < clk::nzones * clk::nzones; z++) mc::at(7, {a, z / clk::nzones, z % clk::nzones});
    for (int64_t n = 0; n < 140; n++) mc::at(4, {n});
    for (int a : {A_SHA1, A_SHA256, A_SHA512})
        if (T || a == A_SHA1)
            for (size_t i = 0; i < points(true).size(); i++) mc::at(5, {a, (int64_t)i, T});
    for (int a = 0; a < 12; a++) {
        mc::at(2, {a});
        for (int64_t n = 0; n <= (T ? 900 : (int64_t)block_size[a] * 2 + 10); n++) mc::at(3, {a, n});
        for (int k = 9; k <= (T ? 20 : 17); k++) for (int d = -1; d <= 1; d++) mc::at(3, {a, (1 << k) + d});
        for (int64_t n : {1000, 5000, 70000, (1 << 20) + 1}) mc::at(3, {a, n});
    }
    for (int a = 0; a < 12; a++)
        for (int form = 0; form < 5; form++)
            for (int fill : {0xA5, 0})
                for (int o1 = 0; o1 < NOPS; o1++)
                    for (int o2 = 0; o2 < NOPS; o2++) {
                        bool main = a == A_SHA1 && form == 1 && fill == 0xA5;
                        mc::at(1, {a, form, fill, main ? (T ? 6 : 5) : fill || form == 0 ? (T ? 4 : 3) : (T ? 3 : 2), o1, o2});
                    }
    for (int a = 0; a < 12; a++)
        for (int what = 0; what < 2; what++)
            if (T || what == 0 || a == A_SHA1) mc::at(6, {a, what, T ? 1 << 18 : 66000});
}
void selfcheck() {
    hash_selfcheck();
    base_selfcheck();
    for (int a = 0; a < 12; a++) {
        Bytes k = pattern(0, 20);
        printf("REF hotp %s %d %d %d %" PRId64 "\n", alg_name[a], 20, 77, 6, hotp(a, k.data(), k.size(), 77, 6));
    }
}
