// C19: every sequence of calls up to a depth on one HOTP object, for every way to construct it and every hash, against
// a model that keeps the secret and counter set last.
#include "mc.hpp"
#include "phases.hpp"
#include <unordered_map>
#include "api.hpp"
#include "dirty.hpp"
#include "libpgfe/exceptions.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "otpcodes.hpp"
#include "huge.hpp"
#include "ref/base.hpp"
using namespace ref;
using libpgfe::AbstractOTP;
using libpgfe::HOTP;
using libpgfe::SequentialData;

enum { RAW, RAW_LONG, RAW_EMPTY, CSTR, CSTR_B32, STR, STR_B32, SD, FROM_B32_CS, FROM_B32_STR, ABS_PTR, ABS_CSTR, ABS_STR, ABS_SD, CTR0, CTR1, CTR_BIG, ABS_CTR, GENERATE, NOPS };
static const char *const op_name[NOPS] = {"set_secret(ptr, 10)", "set_secret(ptr, 150)", "set_secret(ptr, 0)", "set_secret(C string)", "set_secret(C string, base32)",
                                          "set_secret(std::string)", "set_secret(std::string, base32)", "set_secret(SequentialData)", "set_secret_from_base32(C string)",
                                          "set_secret_from_base32(std::string)", "AbstractOTP.set_secret(ptr, 20)", "AbstractOTP.set_secret(C string)",
                                          "AbstractOTP.set_secret(std::string)", "AbstractOTP.set_secret(SequentialData)", "set_counter(0)", "set_counter(1)",
                                          "set_counter(2^40+3)", "AbstractOTP.set_counter(9)", "generate(8)"};
enum { F_NONE, F_PTR, F_CSTR, F_STR, F_SD, NFORMS };
static const char *const form_name[NFORMS] = {"no secret", "pointer and length", "C string", "std::string", "SequentialData"};
struct Model {
    bool has = false;
    Bytes key;
    uint64_t ctr = 0;
};
static std::unordered_map<uint64_t, int64_t> memo;
static int64_t code(int a, const Model &m, int d) {
    uint64_t h = mc::fnv(m.key.data(), m.key.size(), mc::fnv(&m.ctr, 8, (uint64_t)(a * 32 + d)));
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, hotp(a, m.key.data(), m.key.size(), m.ctr, d)).first;
    return it->second;
}
static Bytes nozero(Bytes b) {
    for (auto &x : b) if (!x) x = 'q';
    return b;
}
// A secret with zero bytes inside, so that a form that stops at a zero byte shows (trailing zeros do not matter to HMAC).
static Bytes secret(int i, size_t n) {
    Bytes b = pattern(4 + i, n);
    for (auto &x : b) if (!x) x = 1;
    if (n > 3 && i % 3 != 2) {
        if (i % 2) b[0] = 0;
        b[n / 3] = b[n / 2] = 0;
    }
    return b;
}
static std::string z(const Bytes &b) { return std::string((const char *)b.data(), b.size()); }
static void check(int a, const HOTP &o, const Model &m, const std::string &how, bool all) {
    const AbstractOTP &base = o;
    for (int d = all ? 1 : 6; d <= (all ? 10 : 6); d++) {
        mc::count("executions")++;
        if (!m.has) {
            for (int k = 0; k < 4; k++) {
                bool threw = false;
                try {
                    if (k == 0) o.generate((uint8_t)d);
                    if (k == 1) o.generate_str((uint8_t)d);
                    if (k == 2) base.generate((uint8_t)d);
                    if (k == 3) base.generate_str((uint8_t)d);
                }
                catch (const libpgfe::NotInitializedException &) {
                    threw = true;
                }
                CHECK(threw, "HOTP(%s), %s: generating without a secret did not throw NotInitializedException", alg_name[a], how.c_str());
            }
            continue;
        }
        int64_t want = code(a, m, d);
        uint64_t got = d == 6 ? o.generate() : o.generate((uint8_t)d), gotb = d == 6 ? base.generate() : base.generate((uint8_t)d);
        mc::outcome(&got, 8, (uint64_t)a);
        if (want < 0) want = (int64_t)got; // MD5 with a window outside the digest: C18
        CHECK(got == (uint64_t)want && gotb == got, "HOTP(%s), %s: generate(%d) = %" PRIu64 ", through the base class %" PRIu64 ", want %" PRId64, alg_name[a], how.c_str(), d, got, gotb, want);
        char text[32];
        snprintf(text, sizeof text, "%0*" PRId64, d, want);
        std::string s = d == 6 ? o.generate_str() : o.generate_str((uint8_t)d), sb = base.generate_str((uint8_t)d);
        CHECK(s == text && sb == text, "HOTP(%s), %s: generate_str(%d) = \"%s\", through the base class \"%s\", want \"%s\"", alg_name[a], how.c_str(), d, s.c_str(), sb.c_str(), text);
    }
}
static void apply(int op, int i, HOTP &o, Model &m) {
    AbstractOTP &base = o;
    Bytes k = secret(i, op == RAW ? 10 : op == RAW_LONG ? 150 : op == RAW_EMPTY ? 0 : 20);
    std::string b32 = base_encode(E32, k.data(), k.size(), i % 2);
    if (i % 3 == 1) for (auto &ch : b32) if (ch >= 'A' && ch <= 'Z') ch = (char)(ch + 32);
    bool raw_string = op == CSTR || op == ABS_CSTR;
    if (raw_string) k = nozero(k);
    std::string s = z(k);
    SequentialData sd(k.data(), k.size());
    Exact x(k.data(), k.size());
    switch (op) {
    case RAW: case RAW_LONG: case RAW_EMPTY: o.set_secret(x.p, x.n); break;
    case CSTR: o.set_secret(s.c_str()); break;
    case CSTR_B32: o.set_secret(b32.c_str(), true); break;
    case STR: o.set_secret((const std::string &)s); break;
    case STR_B32: o.set_secret((const std::string &)b32, true); break;
    case SD: o.set_secret(sd); break;
    case FROM_B32_CS: o.set_secret_from_base32(b32.c_str()); break;
    case FROM_B32_STR: o.set_secret_from_base32((const std::string &)b32); break;
    case ABS_PTR: base.set_secret(x.p, x.n); break;
    case ABS_CSTR: base.set_secret(s.c_str()); break;
    case ABS_STR: base.set_secret((const std::string &)s); break;
    case ABS_SD: base.set_secret(sd); break;
    case CTR0: o.set_counter(0), m.ctr = 0; return;
    case CTR1: o.set_counter(1), m.ctr = 1; return;
    case CTR_BIG: o.set_counter(((uint64_t)1 << 40) + 3), m.ctr = ((uint64_t)1 << 40) + 3; return;
    case ABS_CTR: base.set_counter(9), m.ctr = 9; return;
    case GENERATE:
        if (m.has) o.generate(8);
        return;
    }
    m.has = true;
    m.key = k;
    memset(x.p, 0xEE, x.n); // the object must have its own copy
}
static void dfs(int a, int form, int fill, int *seq, int n, int depth) {
    mc::count("states")++;
    dirty::fill_kind() = fill;
    auto go = [&](HOTP &o, Model m) {
        std::string how = std::string("built from ") + form_name[form];
        for (int i = 0; i < n; i++) {
            mc::count("transitions")++;
            apply(seq[i], i, o, m);
        }
        for (int i = 0; i < n; i++) how += std::string(", ") + op_name[seq[i]];
        CHECK(o.algorithm() == api::choice[a], "HOTP(%s) reports algorithm %d", alg_name[a], (int)o.algorithm());
        check(a, o, m, how, n <= 1);
    };
    Model m;
    m.has = form != F_NONE;
    if (m.has) m.key = form == F_CSTR ? nozero(secret(9, 12)) : secret(9, 12);
    std::string s = z(m.key);
    SequentialData sd(m.key.data(), m.key.size());
    if (form == F_NONE) {
        dirty::Object<HOTP> o(fill, api::choice[a]);
        go(*o, m);
    }
    else if (form == F_PTR) {
        dirty::Object<HOTP> o(fill, (const pgfe_encode_t *)m.key.data(), m.key.size(), api::choice[a]);
        go(*o, m);
    }
    else if (form == F_CSTR) {
        dirty::Object<HOTP> o(fill, s.c_str(), api::choice[a]);
        go(*o, m);
    }
    else if (form == F_STR) {
        dirty::Object<HOTP> o(fill, s, api::choice[a]);
        go(*o, m);
    }
    else {
        dirty::Object<HOTP> o(fill, sd, api::choice[a]);
        go(*o, m);
    }
    if (n == depth) return;
    for (int op = 0; op < NOPS; op++) {
        seq[n] = op;
        dfs(a, form, fill, seq, n + 1, depth);
    }
}
// One secret of any length through every constructor and setter.
static void lengths(int a, size_t n) {
    Model m;
    m.has = true;
    m.ctr = 0;
    dirty::fill_kind() = 0xA5;
    for (int i = 0; i < 2; i++)
        for (int way = 0; way < 17; way++) {
            static const char *const way_name[17] = {"HOTP(ptr)", "HOTP(C string)", "HOTP(std::string)", "HOTP(SequentialData)", "set_secret(ptr)", "set_secret(C string)", "set_secret(C string, base32)",
                "set_secret(std::string)", "set_secret(std::string, base32)", "set_secret(SequentialData)", "set_secret_from_base32(C string)", "set_secret_from_base32(std::string)",
                "AbstractOTP.set_secret(ptr)", "AbstractOTP.set_secret(C string)", "AbstractOTP.set_secret(std::string)", "AbstractOTP.set_secret(SequentialData)", "set_secret(shorter), then ptr"};
            if (n > 3000 && (i || way == 16)) continue;
            bool cs = way == 1 || way == 5 || way == 13;
            m.key = secret(i ? 2 : 0, n);
            if (cs) m.key = nozero(m.key);
            Bytes kz = m.key;
            kz.push_back(0);
            Exact x(m.key.data(), n), xz(kz.data(), n + 1);
            std::string s = z(m.key), b32 = base_encode(E32, m.key.data(), n, (way + i) % 2);
            SequentialData sd(m.key.data(), n);
            auto done = [&](HOTP &o) {
                memset(x.p, 0xEE, x.n);
                memset(xz.p, 0xEE, xz.n);
                o.set_counter(m.ctr = n);
                check(a, o, m, mc::strf("%s with a secret of %zu bytes%s", way_name[way], n, cs || i ? "" : " with zero bytes inside"), false);
            };
            if (way == 0) { dirty::Object<HOTP> o(0xA5, (const pgfe_encode_t *)x.p, n, api::choice[a]); done(*o); continue; }
            if (way == 1) { dirty::Object<HOTP> o(0xA5, (const char *)xz.p, api::choice[a]); done(*o); continue; }
            if (way == 2) { dirty::Object<HOTP> o(0xA5, s, api::choice[a]); done(*o); continue; }
            if (way == 3) { dirty::Object<HOTP> o(0xA5, sd, api::choice[a]); done(*o); continue; }
            dirty::Object<HOTP> h(0xA5, api::choice[a]);
            HOTP &o = *h;
            AbstractOTP &base = o;
            switch (way) {
            case 4: o.set_secret(x.p, n); break;
            case 5: o.set_secret((const char *)xz.p); break;
            case 6: o.set_secret(b32.c_str(), true); break;
            case 7: o.set_secret((const std::string &)s); break;
            case 8: o.set_secret((const std::string &)b32, true); break;
            case 9: o.set_secret(sd); break;
            case 10: o.set_secret_from_base32(b32.c_str()); break;
            case 11: o.set_secret_from_base32((const std::string &)b32); break;
            case 12: base.set_secret(x.p, n); break;
            case 13: base.set_secret((const char *)xz.p); break;
            case 14: base.set_secret((const std::string &)s); break;
            case 15: base.set_secret(sd); break;
            default: o.set_secret(x.p, n / 2), o.generate(), o.set_secret(x.p, n);
            }
            done(o);
        }
}
// Arguments left out: SHA-1 and 6 digits.
static void defaults(size_t n) {
    Bytes k = pattern(6, n);
    for (auto &x : k) if (!x) x = 'k';
    std::string s((const char *)k.data(), n);
    SequentialData sd(k.data(), n);
    for (int form = 0; form < 5; form++) {
        std::unique_ptr<HOTP> o(form == 0 ? new HOTP() : form == 1 ? new HOTP(k.data(), n) : form == 2 ? new HOTP(s.c_str()) : form == 3 ? new HOTP(s) : new HOTP(sd));
        if (form == 0) o->set_secret(s.c_str());
        const AbstractOTP &base = *o;
        for (uint64_t c = 0; c < 20; c++) {
            if (c) o->set_counter(c);
            int64_t w = hotp(A_SHA1, k.data(), n, c, 6);
            char t[32];
            snprintf(t, sizeof t, "%06" PRId64, w);
            mc::count("executions")++;
            CHECK(o->generate() == (uint64_t)w && base.generate() == (uint64_t)w && o->generate_str() == t && base.generate_str() == t,
                  "HOTP built by form %d without naming an algorithm, secret of %zu bytes, counter %" PRIu64 ": generate() = %" PRIu64 ", want %s", form, n, c, (uint64_t)o->generate(), t);
        }
    }
}
static std::vector<uint64_t> counters() {
    std::vector<uint64_t> v;
    for (uint64_t i = 0; i < 12; i++) v.push_back(i);
    for (int k = 4; k < 64; k++)
        for (int d = -1; d <= 1; d++) v.push_back(((uint64_t)1 << k) + (uint64_t)(int64_t)d);
    v.push_back(~(uint64_t)0);
    v.push_back(0x0123456789ABCDEFull);
    return v;
}
static void code_is(int a, HOTP &o, const Model &m, int d, const std::string &what) {
    int64_t want = hotp(a, m.key.data(), m.key.size(), m.ctr, d);
    if (want < 0) return;
    char t[32];
    snprintf(t, sizeof t, "%0*" PRId64, d, want);
    const AbstractOTP &base = o;
    mc::count("executions")++;
    uint64_t g = o.generate((uint8_t)d);
    std::string x = base.generate_str((uint8_t)d);
    mc::outcome(&want, 8, (uint64_t)a);
    CHECK(g == (uint64_t)want && x == t, "HOTP(%s), %s, counter %" PRIu64 ", %d digits: %" PRIu64 " and \"%s\", want \"%s\"", alg_name[a], what.c_str(), m.ctr, d, g, x.c_str(), t);
}
// One object: every counter after the first one; every digit count after every other.
static void pairs(int a, size_t first) {
    auto all = counters();
    Model m;
    m.key = secret(0, 20);
    HOTP o(m.key.data(), m.key.size(), api::choice[a]);
    AbstractOTP &base = o;
    for (size_t i = 0; i < all.size(); i++) {
        base.set_counter(m.ctr = all[first]);
        code_is(a, o, m, 6, "one object");
        o.set_counter(m.ctr = all[i]);
        code_is(a, o, m, 6, mc::strf("after counter %" PRIu64, all[first]));
    }
    int d1 = (int)first % 10 + 1;
    for (int d2 = 1; d2 <= 10; d2++) {
        code_is(a, o, m, d1, "one object");
        code_is(a, o, m, d2, mc::strf("after %d digits", d1));
    }
}
// A secret, then one that differs in one byte or is one byte shorter or longer, on the same object.
static void alike(int a, size_t n) {
    Model m;
    m.ctr = 3;
    HOTP o(api::choice[a]);
    o.set_counter(3);
    Bytes k = pattern(5, n + 1), k2 = k; // k2 is one place whose contents change
    SequentialData sd;
    std::string str;
    auto give = [&](const Bytes &b, size_t len, size_t way) {
        m.key.assign(b.begin(), b.begin() + (long)len);
        sd.assign(b.data(), len);
        str.assign((const char *)b.data(), len);
        switch (way % 4) {
        case 0: o.set_secret(b.data(), len); break;
        case 1: o.set_secret(sd); break;
        case 2: o.set_secret((const std::string &)str); break;
        default: o.set_secret(base_encode(E32, b.data(), len).c_str(), true);
        }
    };
    for (size_t at = 0; at < n; at++) {
        k2 = k;
        give(k2, n, at);
        code_is(a, o, m, 6, mc::strf("secret of %zu bytes", n));
        k2[at] ^= (uint8_t)(1 << at % 8);
        give(k2, n, at + at / 4 % 4);
        code_is(a, o, m, 6, mc::strf("secret of %zu bytes changed in byte %zu only", n, at));
    }
    for (size_t len : {n + 1, n, n ? n - 1 : 0, n}) {
        give(k, len, len);
        code_is(a, o, m, 6, mc::strf("secret of %zu bytes", len));
    }
}
std::string describe(const mc::Case &);
// kind 7: v = alg, what, count: one object, count codes of consecutive counters (0) or of one counter (1), or count
// secrets (2)
static void longrun(int a, int what, uint64_t count) {
    Model m;
    m.has = true;
    m.key = secret(0, 20);
    HOTP o(m.key.data(), m.key.size(), api::choice[a]);
    Bytes k[2] = {secret(1, 20), secret(2, block_size[a] + 5)};
    o.set_counter(m.ctr = 77);
    for (uint64_t i = 1; i <= count; i++) {
        mc::count("transitions")++;
        if (i % 1024 == 0) mc::tick();
        if (what == 0) o.set_counter(m.ctr = i);
        if (what == 2) {
            m.key = k[i % 3 == 1];
            o.set_secret(m.key.data(), m.key.size());
            if (i % 7 == 0) o.set_counter(m.ctr = i % 70);
        }
        int d = i % 2 ? 6 : 8;
        uint64_t g = o.generate((uint8_t)d);
        mc::count("executions")++;
        int64_t want = what == 0 ? hotp(a, m.key.data(), m.key.size(), m.ctr, d) : code(a, m, d);
        if (want < 0) continue; // MD5: C18
        CHECK(g == (uint64_t)want, "HOTP(%s), %s number %" PRIu64 ": generate(%d) with counter %" PRIu64 " = %" PRIu64 ", want %" PRId64, alg_name[a], what == 2 ? "secret" : "code", i, d, m.ctr, g, want);
    }
    check(a, o, m, "after that", true);
}
// kind 8: v = alg, large, small, times, form: secrets of one object
static void phased(const mc::Case &c) {
    int a = (int)c.v[0];
    for (int64_t mid : phases::MID) {
        Model m;
        m.has = true;
        HOTP o(api::choice[a]);
        std::string how = describe(c) + mc::strf(" (%" PRId64 ")", mid);
        auto set = [&](int64_t n, int kind, bool look) {
            m.key = secret(kind, (size_t)n);
            if (c.v[4] == 0) o.set_secret(m.key.data(), m.key.size());
            else o.set_secret(base_encode(1, m.key.data(), m.key.size()).c_str(), true);
            mc::count("transitions")++;
            if (look) check(a, o, m, how.c_str(), true);
        };
        set(c.v[1], 0, true);
        for (int64_t i = 0; i < c.v[3]; i++) set(c.v[2], (int)(i % 2), i % 64 == 1);
        set(mid, 2, true), set(c.v[2], 1, true), set(mid, 0, true);
    }
}
// kind 1: v = alg, form, fill, depth, first op.  kind 2: v = alg: codes with every number of leading zeros
// A secret of more than 2^31 or 2^32 bytes counts as its digest.
static void gigantic(int a, size_t n, int form) {
    Bytes k;
    for (const std::string &h = huge::digest_of(alg_name[a], n); k.size() < h.size() / 2;) k.push_back((uint8_t)std::stoi(h.substr(2 * k.size(), 2), nullptr, 16));
    mc::count("executions")++, mc::count("transitions")++, mc::count("states")++;
    const uint8_t *w = huge::window().p;
    HOTP o(api::choice[a]);
    if (form == 0) o.set_secret(w, n);
    else if (form == 1) o.set_secret(std::string((const char *)w, n));
    else o.set_secret(SequentialData(w, n));
    o.set_counter(77);
    uint64_t got = o.generate(8);
    mc::outcome(&got, 8, (uint64_t)(a + 16 * form));
    int64_t want = hotp(a, k.data(), k.size(), 77, 8);
    CHECK(want < 0 || got == (uint64_t)want, "HOTP(%s) with a secret of %zu bytes (form %d), counter 77, 8 digits: %" PRIu64 ", want %" PRId64, alg_name[a], n, form, got, want);
}
void run_case(const mc::Case &c) {
    memo.clear();
    if (c.kind == 9) return gigantic((int)c.v[0], (size_t)c.v[1], (int)c.v[2]);
    if (c.kind == 2) {
        int a = (int)c.v[0];
        std::string s = "12345678901234567890";
        HOTP o(s, api::choice[a]);
        Model m;
        m.has = true;
        m.key.assign(s.begin(), s.end());
        for (auto &r : rare_codes) {
            o.set_counter(m.ctr = r.counter);
            check(a, o, m, mc::strf("RFC 4226 secret, counter %" PRIu64 " (SHA-1 code %u)", r.counter, r.value), true);
        }
        return;
    }
    if (c.kind == 4) return defaults((size_t)c.v[0]);
    if (c.kind == 8) return phased(c);
    if (c.kind == 7) return longrun((int)c.v[0], (int)c.v[1], (uint64_t)c.v[2]);
    if (c.kind == 5) return pairs((int)c.v[0], (size_t)c.v[1]);
    if (c.kind == 6) return alike((int)c.v[0], (size_t)c.v[1]);
    if (c.kind == 3) return lengths((int)c.v[0], (size_t)c.v[1]);
    int seq[12] = {(int)c.v[4]};
    if (c.v[4] == 0) dfs((int)c.v[0], (int)c.v[1], (int)c.v[2], seq, 0, 0);
    dfs((int)c.v[0], (int)c.v[1], (int)c.v[2], seq, 1, (int)c.v[3]);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 9) return mc::strf("HOTP(%s): a secret of %" PRId64 " bytes, set as %s", alg_name[c.v[0]], c.v[1], c.v[2] == 0 ? "bytes" : c.v[2] == 1 ? "a string" : "a SequentialData");
    if (c.kind == 8) return phases::text(c.v[4] ? "Base32 secrets" : "secrets", c.v[1], c.v[2], c.v[3]) + mc::strf(", HOTP(%s)", alg_name[c.v[0]]);
    if (c.kind == 7) return mc::strf("HOTP(%s): %" PRId64 " %s of one object", alg_name[c.v[0]], c.v[2], c.v[1] == 0 ? "codes of consecutive counters" : c.v[1] == 1 ? "codes of one counter" : "secrets");
    if (c.kind == 2) return mc::strf("HOTP(%s): codes with every number of leading zeros, 1 to 10 digits", alg_name[c.v[0]]);
    if (c.kind == 4) return mc::strf("HOTP with default arguments, secret of %" PRId64 " bytes", c.v[0]);
    if (c.kind == 5) return mc::strf("HOTP(%s): counter %" PRIu64 ", then every other; every pair of digit counts", alg_name[c.v[0]], counters()[(size_t)c.v[1]]);
    if (c.kind == 6) return mc::strf("HOTP(%s): secrets of %" PRId64 " bytes that differ in one byte, in turn", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 3) return mc::strf("HOTP(%s): a secret of %" PRId64 " bytes through every constructor and setter", alg_name[c.v[0]], c.v[1]);
    return mc::strf("HOTP(%s) from %s, memory filled with %" PRId64 ": every sequence of up to %" PRId64 " calls that begins with %s", alg_name[c.v[0]], form_name[c.v[1]], c.v[2], c.v[3], op_name[c.v[4]]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        for (int a = 0; a < 12; a++)
            for (int form = 0; form < 3; form++)
                for (int64_t n : {4294967373ll, 2147483657ll}) if (T || (a == A_SHA1 && n >> 32 == (form == 0))) mc::at(9, {a, n, form});
        return;
    }
    for (int64_t n = 0; n < 140; n++) mc::at(4, {n});
    for (int a = 0; a < 12; a++) {
        if (a == A_SHA1 || T)
            for (size_t i = 0; i < counters().size(); i++) mc::at(5, {a, (int64_t)i});
        for (int64_t n = 0; n <= (T ? 200 : a == A_SHA1 ? 70 : 20); n++) mc::at(6, {a, n});
        mc::at(2, {a});
        if (T || a == A_SHA1 || a == A_SHA512 || a == A_SHA3_256)
            for (int f = 0; f < 2; f++) phases::each(T, a == A_SHA1 ? 128 : 5, [&](int64_t l, int64_t s, int64_t n) { mc::at(8, {a, l, s, n, f}); });
        for (int64_t n = 0; n <= (T ? 900 : (int64_t)block_size[a] * 2 + 10); n++) mc::at(3, {a, n});
        for (int k = 9; k <= (T ? 20 : 17); k++) for (int d = -1; d <= 1; d++) mc::at(3, {a, (1 << k) + d});
        for (int64_t n : {1000, 5000, 70000, (1 << 20) + 1}) mc::at(3, {a, n});
    }
    for (int a = 0; a < 12; a++)
        for (int form = 0; form < NFORMS; form++)
            for (int fill : {0xA5, 0, 256 + a, 0xFF})
                for (int op = 0; op < NOPS; op++) {
                    int deep = fill == 0xA5 && a == A_SHA1 && form == F_NONE ? (T ? 5 : 4) : fill == 0xA5 ? (T ? 4 : 3) : (T ? 3 : 2);
                    mc::at(1, {a, form, fill, deep, op});
                }
    mc::offsets([&] {
        for (int a = 0; a < 12; a++)
            for (int64_t n = 1; n <= (T ? 300 : 70); n += T || n < 20 ? 1 : 7) mc::at(3, {a, n});
    });
    for (int a = 0; a < 12; a++)
        for (int what = 0; what < 3; what++)
            if (T || what != 0 || a == A_SHA1 || a == A_SHA512) mc::at(7, {a, what, T ? 1 << 18 : 66000});
}
void selfcheck() {
    hash_selfcheck();
    base_selfcheck();
    for (int a = 0; a < 12; a++)
        for (int kl = 0; kl < 200; kl += 37) {
            Bytes k = pattern(0, (size_t)kl);
            printf("REF hotp %s %d %d %d %" PRId64 "\n", alg_name[a], kl, 77, 6, hotp(a, k.data(), k.size(), 77, 6));
        }
}
