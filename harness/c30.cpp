// C30: every single allocation inside every library call fails once (and, in a second mode, so do all later ones of the
// same call); the call must end with std::bad_alloc and change nothing that matters: repeating it and carrying on gives
// the right results, or destroying everything at once leaks nothing. AddressSanitizer watches for double frees.
#include "alloc.hpp"
#include "mc.hpp"
#include "units.hpp"
#include "libpgfe/exceptions.hpp"
using namespace units;

enum { RETRY, PERSIST, ABANDON };
static const char *const mode_name[] = {"the call is repeated", "all later allocations of the call fail too, then it is repeated", "everything is destroyed"};
// kind 1: v = family, algorithm, length
static void unit(const mc::Case &c) {
    static uint64_t &ex = mc::count("executions"), &inj = mc::count("failures_injected");
    Unit u((int)c.v[0], (int)c.v[1], c.v[2]);
    {
        auto r = u.instance(); // warm up lazily made things
        Out got;
        for (auto &s : r->steps) s(got);
    }
    for (int mode = 0; mode < 3; mode++)
        for (long nth = 0;; nth++) {
            long before = alloc::live, fails = 0;
            bool fired = false, abandoned = false;
            {
                auto r = u.instance();
                Out got;
                long skip = nth; // the allocation to fail, counted from the start of the program
                for (size_t i = 0; i < r->steps.size() && !abandoned; i++) {
                    size_t had = got.size();
                    if (!fired) alloc::arm(skip, mode == PERSIST ? 1L << 60 : skip + 1);
                    bool threw = false;
                    try {
                        r->steps[i](got);
                    }
                    catch (const std::bad_alloc &) {
                        threw = true;
                    }
                    catch (const mc::Failure &) {
                        throw;
                    }
                    catch (const std::exception &e) {
                        alloc::disarm();
                        mc::fail(mc::strf("%s: allocation %ld fails: step %zu threw %s, not std::bad_alloc", describe(c).c_str(), nth, i, e.what()));
                    }
                    alloc::disarm();
                    fails = fired ? fails : alloc::failed;
                    CHECK(threw == (!fired && fails > 0), "%s: allocation %ld fails: step %zu %s", describe(c).c_str(), nth, i, threw ? "threw although nothing failed" : "did not report it");
                    if (!fired) skip -= alloc::seen;
                    if (threw) {
                        fired = true;
                        CHECK(got.size() == had, "internal: output of a failed step");
                        if (mode == ABANDON) abandoned = true;
                        else i--;
                    }
                }
                if (!abandoned) u.compare(got, mc::strf(" when allocation %ld fails and %s", nth, mode_name[mode]));
                std::string bad = r->changed_input();
                CHECK(bad.empty(), "%s: allocation %ld fails: %s", describe(c).c_str(), nth, bad.c_str());
            }
            CHECK(alloc::live == before, "%s: allocation %ld fails and %s: %ld blocks leaked", describe(c).c_str(), nth, mode_name[mode], alloc::live - before);
            ex++;
            if (!fired) break;
            inj++;
            mc::outcome(&nth, sizeof nth, (uint64_t)(c.v[0] * 1000003 + c.v[1] * 1009 + mode) + (uint64_t)c.v[2] * 7919);
        }
}
// Run f with its nth allocation failing. 0: no failure left to inject, 1: it threw bad_alloc.
static int attempt(long nth, const std::function<void()> &f, const std::string &what) {
    mc::count("executions")++;
    alloc::arm(nth, nth + 1);
    int r = 0;
    try {
        Scope s;
        f();
    }
    catch (const std::bad_alloc &) {
        r = 1;
    }
    alloc::disarm();
    CHECK(r == (alloc::failed ? 1 : 0), "%s: a failed allocation was not reported", what.c_str());
    if (r) mc::count("failures_injected")++;
    return r;
}
static std::unique_ptr<AbstractBaseEncoding> codec(int e) { return bapi::make(e); }
// kind 2: one codec: a call of length x (y bytes before it) fails; then calls of other lengths.
static void codec_case(int e, int64_t before, int64_t failing, bool enc) {
    static const int64_t after[] = {1, 40, 64, 79, 80, 81, 106, 127, 128, 160, 400};
    for (int64_t n : after)
        for (long nth = 0; nth < 20; nth++) {
            long base = alloc::live;
            int r;
            {
                auto o = codec(e);
                Bytes b0 = D(before + 1, 0, before < 0 ? 0 : before), b1 = D(failing, 1, failing), b2 = D(n, 2, n);
                std::string t0 = base_encode(e, b0.data(), b0.size()), t1 = base_encode(e, b1.data(), b1.size()), t2 = base_encode(e, b2.data(), b2.size());
                std::string how = mc::strf("Base%s: %s of %" PRId64 " bytes, then of %" PRId64 " whose allocation %ld fails, then of %" PRId64, enc_name[e], enc ? "encode" : "decode", before, failing, nth, n);
                if (before >= 0) enc ? (void)o->encode(b0.data(), b0.size()) : (void)o->decode(t0.c_str());
                r = attempt(nth, [&] { enc ? (void)o->encode(b1.data(), b1.size()) : (void)o->decode(t1.c_str()); }, how);
                for (int twice = 0; twice < 2; twice++) {
                    if (enc) CHECK(o->encode(b2.data(), b2.size()) == t2, "%s: wrong text", how.c_str());
                    else CHECK(S(o->decode(t2.c_str())) == S(b2), "%s: wrong bytes", how.c_str());
                    if (enc) CHECK(o->encode(b1.data(), b1.size()) == t1, "%s, then the first again: wrong text", how.c_str());
                    else CHECK(S(o->decode(t1.c_str())) == S(b1), "%s, then the first again: wrong bytes", how.c_str());
                    if (enc) CHECK(S(o->decode(t2.c_str())) == S(b2), "%s: the other direction is wrong", how.c_str());
                    else CHECK(o->encode(b2.data(), b2.size()) == t2, "%s: the other direction is wrong", how.c_str());
                }
            }
            CHECK(alloc::live == base, "codec leaked %ld blocks", alloc::live - base);
            if (!r) break;
            mc::outcome(&nth, sizeof nth, (uint64_t)(e * 100000 + before * 7 + failing * 3 + n));
        }
}
// kind 3: HashEncoder: a get_digest that fails, then another, resets, and updates after it.
static void encoder_case(int a, int64_t bits1, int64_t bits2, int after) {
    for (long nth = 0; nth < 20; nth++) {
        long base = alloc::live;
        int r;
        {
            HashEncoder e(api::choice[a]);
            Bytes m = D(bits1 + bits2, 1, 150);
            std::string how = mc::strf("HashEncoder(%s).get_digest(%" PRId64 ") whose allocation %ld fails, then %s get_digest(%" PRId64 ")", alg_name[a], bits1, nth, after == 0 ? "" : after == 1 ? "an update," : "a reset and an update,", bits2);
            e.update(m.data(), m.size());
            r = attempt(nth, [&] { e.get_digest((uint64_t)bits1); }, how);
            Bytes all = m;
            if (r || after == 2) { // a digest that did succeed ends the message
                if (after == 2) e.reset(), all.clear();
                if (after) e.update(m.data(), 50), all.insert(all.end(), m.begin(), m.begin() + 50);
                size_t ds = digest_size[a], bytes = (size_t)(bits2 + 7) / 8;
                std::string want = is_shake(a) ? dig(a, all, bits2 ? (size_t)bits2 : ds * 8) : dig(a, all, 0).substr(0, bits2 && bytes < ds ? bytes : ds);
                CHECK(S(*e.get_digest((uint64_t)bits2)) == want, "%s: wrong digest", how.c_str());
            }
        }
        CHECK(alloc::live == base, "HashEncoder leaked %ld blocks", alloc::live - base);
        if (!r) break;
        mc::outcome(&nth, sizeof nth, (uint64_t)(a * 100000 + bits1 * 7 + bits2 * 3 + after));
    }
}
// kind 4: HOTP and TOTP: a failed set_secret leaves the old secret or has set the new one, for every form.
static void otp_case(int a, int form, bool had, bool totp) {
    for (long nth = 0; nth < 30; nth++) {
        long base = alloc::live;
        int r;
        {
            std::unique_ptr<HOTP> o(totp ? new TOTP(30, api::choice[a]) : new HOTP(api::choice[a]));
            clk::now() = NOW;
            Bytes k1 = D(1, 1, 40), k2 = nonul(D(2, 2, 70));
            uint64_t ctr = totp ? (uint64_t)NOW / 30 : 3;
            std::string s2 = S(k2), t2 = base_encode(E32, k2.data(), k2.size());
            SequentialData d2(k2.data(), k2.size());
            if (had) o->set_secret(k1.data(), k1.size());
            o->set_counter(3);
            std::string how = mc::strf("%s(%s): set_secret form %d whose allocation %ld fails%s", totp ? "TOTP" : "HOTP", alg_name[a], form, nth, had ? ", with a secret before" : "");
            AbstractOTP &b = *o;
            auto set = [&] {
                switch (form) {
                case 0: o->set_secret(k2.data(), k2.size()); break;
                case 1: o->set_secret(s2.c_str()); break;
                case 2: o->set_secret((const std::string &)s2); break;
                case 3: o->set_secret((const SequentialData &)d2); break;
                case 4: o->set_secret(t2.c_str(), true); break;
                case 5: o->set_secret_from_base32((const std::string &)t2); break;
                case 6: b.set_secret((const std::string &)s2); break;
                default: b.set_secret(s2.c_str()); break;
                }
            };
            r = attempt(nth, set, how);
            int64_t w1 = hotp(a, k1.data(), k1.size(), ctr, 8), w2 = hotp(a, k2.data(), k2.size(), ctr, 8);
            int64_t got = -2;
            try {
                got = o->generate(8);
            }
            catch (const NotInitializedException &) {
            }
            bool old = had ? got == w1 || w1 < 0 : got == -2, now = got == w2 || (w2 < 0 && got >= 0);
            CHECK(r ? old || now : now, "%s: generate gives %" PRId64 ", the old secret %" PRId64 ", the new %" PRId64, how.c_str(), got, had ? w1 : -2, w2);
            set();
            got = o->generate(8);
            CHECK(got == w2 || w2 < 0, "%s, then set again: generate gives %" PRId64 ", want %" PRId64, how.c_str(), got, w2);
        }
        CHECK(alloc::live == base, "OTP object leaked %ld blocks", alloc::live - base);
        if (!r) break;
        mc::outcome(&nth, sizeof nth, (uint64_t)(a * 100 + form * 4 + had * 2 + totp));
    }
}
void run_case(const mc::Case &c) {
    mc::count("executions") += 0, mc::count("failures_injected") += 0;
    alloc::inside() = [] { return in_lib > 0; };
    if (c.kind == 1) unit(c);
    else if (c.kind == 2) codec_case((int)c.v[0], c.v[1], c.v[2], c.v[3]);
    else if (c.kind == 3) encoder_case((int)c.v[0], c.v[1], c.v[2], (int)c.v[3]);
    else otp_case((int)c.v[0], (int)c.v[1], c.v[2], c.v[3]);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 1) return "every allocation failure in " + label((int)c.v[0], (int)c.v[1], c.v[2]);
    if (c.kind == 2) return mc::strf("Base%s object: %s of %" PRId64 ", a failing one of %" PRId64 ", then others", enc_name[c.v[0]], c.v[3] ? "encode" : "decode", c.v[1], c.v[2]);
    if (c.kind == 3) return mc::strf("HashEncoder(%s): a failing get_digest(%" PRId64 "), then get_digest(%" PRId64 "), variant %" PRId64, alg_name[c.v[0]], c.v[1], c.v[2], c.v[3]);
    return mc::strf("%s(%s): failing set_secret, form %" PRId64 ", %s", c.v[3] ? "TOTP" : "HOTP", alg_name[c.v[0]], c.v[1], c.v[2] ? "had a secret" : "no secret before");
}
void enumerate() {
    bool T = mc::thorough();
    each(T ? 8 : 3, T ? 520 : 130, [=](int f, int a, int64_t n) {
        if (T || f == PROGS || f == BASE || n % 8 == 5 || n < 3) mc::at(1, {f, a, n});
    });
    for (int e = 0; e < ENC_COUNT; e++)
        for (int64_t b : {-1, 0, 60, 100, 200})
            for (int64_t n = 1; n <= (T ? 500 : 130); n += n < 40 || (n > 90 && !T) ? 13 : 1)
                for (int enc = 0; enc < 2; enc++) mc::at(2, {e, b, n, enc});
    for (int a = 0; a < 16; a++)
        for (int64_t b1 : {0, 8, 128, 224, 1024, 4096})
            for (int64_t b2 : {0, 8, 128, 520, 4096})
                for (int after = 0; after < 3; after++) mc::at(3, {a, b1, b2, after});
    for (int a = 0; a < 12; a++)
        for (int f = 0; f < 8; f++)
            for (int had = 0; had < 2; had++)
                for (int t = 0; t < 2; t++) mc::at(4, {a, f, had, t});
}
void selfcheck() { units::selfcheck(); }
