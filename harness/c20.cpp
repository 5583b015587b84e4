// C20: TOTP functions against RFC 6238 for clock values around every interval boundary, intervals, start times, hashes
// and digit counts. The harness answers every clock read.
#include "mc.hpp"
#include "api.hpp"
#include "clock.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/totp.h"
#include "otpcodes.hpp"
using namespace ref;

static void one(int a, const Bytes &k, int64_t now, uint32_t interval, int64_t t0, int d) {
    clk::arm(-1);
    clk::now() = now;
    uint64_t ctr = (uint64_t)((__int128)now - t0) / interval;
    int64_t left = interval - (int64_t)((uint64_t)((__int128)now - t0) % interval);
    int64_t want = hotp(a, k.data(), k.size(), ctr, d);
    if (want < 0) want = (int64_t)pgfe_hotp_generic(api::choice[a], k.data(), k.size(), ctr, (uint8_t)d); // MD5: C18
    static uint64_t &ex = mc::count("executions");
    ex++;
    pgfe_totp_delta_t delta = -77;
    std::string what = mc::strf("clock %" PRId64 ", interval %u, start %" PRId64 ", %s, %d digits", now, interval, t0, alg_name[a], d);
    uint64_t got = pgfe_totp_generic(api::choice[a], k.data(), k.size(), (uint8_t)d, interval, t0, &delta);
    mc::outcome(&got, 8, mc::fnv(&left, 8));
    CHECK(clk::reads() > 0, "pgfe_totp_generic does not read the clock through time, clock_gettime or gettimeofday");
    CHECK(got == (uint64_t)want, "pgfe_totp_generic, %s: %" PRIu64 ", want %" PRId64, what.c_str(), got, want);
    if (interval <= 0x7FFFFFFF) CHECK(delta == left, "pgfe_totp_generic, %s: remaining time %d, want %" PRId64, what.c_str(), delta, left);
    got = pgfe_totp_generic(api::choice[a], k.data(), k.size(), (uint8_t)d, interval, t0, nullptr);
    CHECK(got == (uint64_t)want, "pgfe_totp_generic without a place for the remaining time, %s: %" PRIu64 ", want %" PRId64, what.c_str(), got, want);
    // The clock ticks while the function runs: code and remaining time must still belong together.
    clk::arm(1);
    clk::now() = now;
    delta = -77;
    got = pgfe_totp_generic(api::choice[a], k.data(), k.size(), (uint8_t)d, interval, t0, &delta);
    if (clk::reads() > 1 && interval <= 0x7FFFFFFF) {
        uint64_t c2 = (uint64_t)((__int128)now + 1 - t0) / interval;
        int64_t l2 = interval - (int64_t)((uint64_t)((__int128)now + 1 - t0) % interval), w2 = hotp(a, k.data(), k.size(), c2, d);
        CHECK((got == (uint64_t)want && (delta == left || (c2 == ctr && delta == l2))) || (w2 >= 0 && got == (uint64_t)w2 && (delta == l2 || (c2 == ctr && delta == left))),
              "pgfe_totp_generic while the clock ticks, %s: code %" PRIu64 " and remaining time %d do not belong together", what.c_str(), got, delta);
    }
    clk::arm(-1);
    clk::now() = now;
    if (a == A_SHA1 && t0 == 0) {
        for (int f = 0; f < 2; f++) {
            if (f && d != 4 && d != 6 && d != 8) continue;
            delta = -77;
            pgfe_totp_delta_t *dp = &delta;
            got = !f ? pgfe_totp(k.data(), k.size(), (uint8_t)d, interval, dp)
                     : d == 4 ? pgfe_totp_4digits(k.data(), k.size(), interval, dp)
                              : d == 6 ? pgfe_totp_6digits(k.data(), k.size(), interval, dp) : pgfe_totp_8digits(k.data(), k.size(), interval, dp);
            CHECK(got == (uint64_t)want, "%s, %s: %" PRIu64 ", want %" PRId64, f ? "fixed-digit function" : "pgfe_totp", what.c_str(), got, want);
            if (interval <= 0x7FFFFFFF) CHECK(delta == left, "%s, %s: remaining time %d, want %" PRId64, f ? "fixed-digit function" : "pgfe_totp", what.c_str(), delta, left);
        }
    }
}
static const int64_t starts[] = {0, 1, 59, 1000000000, ((int64_t)1 << 31) - 1, ((int64_t)1 << 32) + 5, -1, -100000, ((int64_t)1 << 40)};
static const int64_t intervals[] = {1, 2, 3, 7, 29, 30, 31, 60, 64, 3600, 86400, 65535, 65536, 16777216, 0x7FFFFFFF, 0x80000000LL, 0xFFFFFFFFLL};
// kind 5: v = alg, time zone, interval, second start.
// kind 1: v = alg, interval, start, digits.  kind 2: v = alg: codes with every number of leading zeros
void run_case(const mc::Case &c) {
    int a = (int)c.v[0];
    clk::zone(c.kind == 5 ? (int)c.v[1] : (int)(mc::fnv(&c.v[0], sizeof c.v[0] * 3) % clk::nzones));
    if (c.kind == 5) {
        Bytes k = pattern(0, 20);
        for (time_t p : clk::zone_points)
            for (int64_t off : {-86400, -7200, -3601, -3600, -1800, -31, -1, 0, 1, 30, 1799, 3599, 3600, 7199, 86400, 43200, 182 * 86400})
                for (int64_t t0 : {0LL, (long long)c.v[3]}) one(a, k, p + off, (uint32_t)c.v[2], t0, 6);
        return;
    }
    if (c.kind == 2) {
        Bytes k;
        for (char ch : std::string("12345678901234567890")) k.push_back((uint8_t)ch);
        for (auto &r : rare_codes)
            for (int d = 1; d <= 10; d++) one(a, k, (int64_t)r.counter * 30 + 11, 30, 0, d);
        return;
    }
    if (c.kind == 3) {
        for (int64_t now : {59LL, 1111111109LL, 20000000000LL})
            for (int d : {6, 8}) one(a, pattern(4, (size_t)c.v[1]), now, 30, 0, d);
        return;
    }
    int64_t iv = c.v[1], t0 = c.v[2];
    Bytes k = pattern(0, 20);
    if (c.kind == 4) { // one secret buffer, a byte changed between two codes of one moment
        Bytes s = pattern(4, (size_t)c.v[1]);
        for (size_t i = 0; i < s.size(); i++)
            for (int d : {6, 8}) {
                one(a, s, 1111111109, 30, 0, d);
                s[i] ^= (uint8_t)(1 << i % 8);
                one(a, s, 1111111109, 30, 0, d);
            }
        return;
    }
    for (int64_t off = 0; off <= 130; off++) one(a, k, t0 + off, (uint32_t)iv, t0, (int)c.v[3]);
    for (int64_t n : {1LL, 2LL, 3LL, 255LL, 256LL, 65535LL, 65536LL, 16777216LL, 4294967295LL, 4294967296LL, 1099511627776LL}) {
        if ((__int128)n * iv > ((__int128)1 << 61)) continue;
        for (int64_t d : {-2LL, -1LL, 0LL, 1LL, (long long)iv / 2}) one(a, k, t0 + n * iv + d < t0 ? t0 : t0 + n * iv + d, (uint32_t)iv, t0, (int)c.v[3]);
    }
    for (int b = 1; b < 61; b++)
        for (int64_t d = -1; d <= 1; d++) one(a, k, t0 + ((int64_t)1 << b) + d, (uint32_t)iv, t0, (int)c.v[3]);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 5) return mc::strf("TOTP/%s, interval %" PRId64 ", start 0 or %" PRId64 ", TZ=%s: clock values around its changes", alg_name[c.v[0]], c.v[2], c.v[3], clk::zones[c.v[1]]);
    if (c.kind == 2) return mc::strf("TOTP/%s: codes with every number of leading zeros, 1 to 10 digits", alg_name[c.v[0]]);
    if (c.kind == 3) return mc::strf("TOTP/%s: a secret of %" PRId64 " bytes", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 4) return mc::strf("TOTP/%s: one secret buffer of %" PRId64 " bytes, each byte changed in turn", alg_name[c.v[0]], c.v[1]);
    return mc::strf("TOTP/%s, interval %" PRId64 ", start %" PRId64 ", %" PRId64 " digits: about 370 clock values", alg_name[c.v[0]], c.v[1], c.v[2], c.v[3]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int a = 0; a < 12; a++)
        for (int z = 0; z < clk::nzones; z++)
            for (int64_t iv : {1, 30, 60, 3600, 86400})
                if (T || iv == 30 || a == A_SHA1) mc::at(5, {a, z, iv, 946684801});
    for (int a = 0; a < 12; a++) {
        mc::at(2, {a});
        for (int64_t n = 1; n <= (T ? 200 : 70); n++) mc::at(4, {a, n});
        for (int64_t n = 0; n <= (T ? 900 : (int64_t)block_size[a] * 2 + 10); n++) mc::at(3, {a, n});
        for (int k = 9; k <= (T ? 20 : 17); k++) for (int d = -1; d <= 1; d++) mc::at(3, {a, (1 << k) + d});
        for (int64_t n : {1000, 5000, 70000, (1 << 20) + 1}) mc::at(3, {a, n});
    }
    for (int a = 0; a < 12; a++)
        for (int64_t iv : intervals)
            for (int64_t t0 : starts)
                for (int d = 1; d <= 10; d++)
                    if (T || d == 6 || (a == A_SHA1 && (d == 4 || d == 8)) || (iv == 30 && t0 == 0)) mc::at(1, {a, iv, t0, d});
}
void selfcheck() {
    hash_selfcheck();
    for (int a = 0; a < 12; a++)
        for (int d = 1; d <= 10; d++) {
            Bytes k = pattern(0, 20);
            printf("REF hotp %s %d %d %d %" PRId64 "\n", alg_name[a], 20, 77, d, hotp(a, k.data(), k.size(), 77, d));
        }
}
