// C18: HOTP functions against RFC 4226 for every hash, every secret length, counters of every magnitude, every digit
// count; and every truncation offset.
#include "mc.hpp"
#include "api.hpp"
#include "libpgfe/otp/hotp.h"
#include "otpcodes.hpp"
#include "huge.hpp"
using namespace ref;

static uint64_t pow10(int d) {
    uint64_t p = 1;
    while (d-- > 0) p *= 10;
    return p;
}
static unsigned offsets_seen = 0;
static void one(int a, const Bytes &key, uint64_t ctr, int digits) {
    uint8_t cb[8];
    for (int i = 0; i < 8; i++) cb[i] = (uint8_t)(ctr >> (56 - 8 * i));
    Bytes h = hmac(a, key.data(), key.size(), cb, 8);
    int64_t want = hotp(a, key.data(), key.size(), ctr, digits);
    Exact k(key.data(), key.size());
    uint64_t got = pgfe_hotp_generic(api::choice[a], k.p, k.n, ctr, (uint8_t)digits);
    static uint64_t &ex = mc::count("executions");
    ex++;
    offsets_seen |= 1u << (h.back() & 15);
    mc::outcome(&got, 8, (uint64_t)(a * 16 + digits));
    if (want >= 0)
        CHECK(got == (uint64_t)want, "pgfe_hotp_generic(%s, secret of %zu bytes %s, counter %" PRIu64 ", %d digits) = %" PRIu64 ", want %" PRId64, alg_name[a], key.size(),
              mc::hex(key.data(), key.size()).c_str(), ctr, digits, got, want);
    else { // the window does not fit in the digest: some window inside it, the same every time
        bool some = false;
        for (size_t o = 0; o + 4 <= h.size(); o++) {
            uint64_t w = (((uint64_t)h[o] & 127) << 24) | ((uint64_t)h[o + 1] << 16) | ((uint64_t)h[o + 2] << 8) | h[o + 3];
            if (digits < 10) w %= pow10(digits);
            some |= w == got;
        }
        volatile char junk[2048];
        for (size_t i = 0; i < sizeof junk; i++) junk[i] = (char)(i * 7 + ctr);
        uint64_t again = pgfe_hotp_generic(api::choice[a], k.p, k.n, ctr, (uint8_t)digits);
        CHECK(some && again == got, "pgfe_hotp_generic(%s, secret of %zu bytes, counter %" PRIu64 ", %d digits) = %" PRIu64 " then %" PRIu64 "; not read from the digest %s only", alg_name[a],
              key.size(), ctr, digits, got, again, mc::hex(h.data(), h.size()).c_str());
    }
    if (a == A_SHA1) {
        uint64_t p = pgfe_hotp(k.p, k.n, ctr, (uint8_t)digits);
        CHECK(p == (uint64_t)want, "pgfe_hotp(secret of %zu bytes, counter %" PRIu64 ", %d digits) = %" PRIu64 ", want %" PRId64, key.size(), ctr, digits, p, want);
        if (digits == 4) p = pgfe_hotp_4digits(k.p, k.n, ctr);
        if (digits == 6) p = pgfe_hotp_6digits(k.p, k.n, ctr);
        if (digits == 8) p = pgfe_hotp_8digits(k.p, k.n, ctr);
        CHECK(p == (uint64_t)want, "pgfe_hotp_%ddigits(secret of %zu bytes, counter %" PRIu64 ") = %" PRIu64 ", want %" PRId64, digits, key.size(), ctr, p, want);
    }
}
// One secret buffer, a byte changed between two codes of one counter.
static void reused(int a, size_t n) {
    Bytes k = pattern(4, n);
    for (size_t i = 0; i < n; i++)
        for (int d : {6, 8}) {
            one(a, k, 7, d);
            k[i] ^= (uint8_t)(1 << i % 8);
            one(a, k, 7, d);
            one(a, k, 8, d);
        }
}
// A secret of more than 2^31 or 2^32 bytes counts as its digest.
static void gigantic(int a, size_t n) {
    Bytes k;
    for (const std::string &h = huge::digest_of(alg_name[a], n); k.size() < h.size() / 2;) k.push_back((uint8_t)std::stoi(h.substr(2 * k.size(), 2), nullptr, 16));
    mc::count("executions")++;
    uint64_t got = pgfe_hotp_generic(api::choice[a], huge::window().p, n, 77, 8);
    mc::outcome(&got, 8, (uint64_t)a);
    int64_t want = hotp(a, k.data(), k.size(), 77, 8);
    CHECK(want < 0 || got == (uint64_t)want, "pgfe_hotp_generic(%s, secret of %zu bytes, counter 77, 8 digits) = %" PRIu64 ", want %" PRId64, alg_name[a], n, got, want);
}
static std::vector<uint64_t> counters() {
    std::vector<uint64_t> v;
    for (int b = 0; b < 64; b++)
        for (int d = -1; d <= 1; d++) v.push_back(((uint64_t)1 << b) + (uint64_t)(int64_t)d);
    v.push_back(~(uint64_t)0);
    v.push_back(0x0102030405060708ull);
    v.push_back(0xF0E0D0C0B0A09080ull);
    return v;
}
// kind 1: v = alg, key length, pattern: a few counters, all digit counts.  kind 2: v = alg, pattern: counters of every
// magnitude.  kind 3: v = alg, first, last: consecutive counters.  kind 4: counters whose code is rare (many leading
// zeros, nearly 0, nearly 2^31)
void run_case(const mc::Case &c) {
    int a = (int)c.v[0];
    if (c.kind == 1) {
        Bytes k = pattern((int)c.v[2], (size_t)c.v[1]);
        for (uint64_t ctr : {(uint64_t)0, (uint64_t)1, (uint64_t)9, (uint64_t)0x100, (uint64_t)0xFFFFFFFF, (uint64_t)0x123456789ABCDEFull})
            for (int d = 1; d <= 10; d++) one(a, k, ctr, d);
    }
    else if (c.kind == 2) {
        Bytes k = pattern((int)c.v[1], 20);
        for (uint64_t ctr : counters())
            for (int d = 1; d <= 10; d++) one(a, k, ctr, d);
    }
    else if (c.kind == 4) {
        Bytes k;
        for (char ch : std::string("12345678901234567890")) k.push_back((uint8_t)ch);
        for (auto &r : rare_codes)
            for (int d = 1; d <= 10; d++) one(a, k, r.counter, d);
    }
    else if (c.kind == 7) { // the same calls again and again
        Bytes k = pattern(4, 20);
        int64_t w[4] = {hotp(a, k.data(), 20, 3, 6), hotp(a, k.data(), 20, 1ull << 40, 6), hotp(a, k.data(), 20, 3, 8), hotp(a, k.data(), 20, 1ull << 40, 8)};
        for (int64_t i = 1; i <= c.v[1]; i++) {
            int j = (int)(i % 4), d = j / 2 ? 8 : 6;
            uint64_t ctr = j % 2 ? 1ull << 40 : 3, g = a == A_SHA1 && i % 3 == 0 ? pgfe_hotp(k.data(), 20, ctr, (uint8_t)d) : pgfe_hotp_generic(api::choice[a], k.data(), 20, ctr, (uint8_t)d);
            mc::count("executions")++;
            if (i % 4096 == 0) mc::tick();
            CHECK(w[j] < 0 || g == (uint64_t)w[j], "HOTP/%s, counter %" PRIu64 ", %d digits, call number %" PRId64 ": %" PRIu64 ", want %" PRId64, alg_name[a], ctr, d, i, g, w[j]);
        }
    }
    else if (c.kind == 8) gigantic(a, (size_t)c.v[1]);
    else if (c.kind == 6) reused(a, (size_t)c.v[1]);
    else if (c.kind == 5) { // long secrets
        Bytes k = pattern(4, (size_t)c.v[1]);
        for (uint64_t ctr : {(uint64_t)1, (uint64_t)0x123456789ull})
            for (int d : {6, 8}) one(a, k, ctr, d);
    }
    else {
        offsets_seen = 0;
        Bytes k = pattern(0, 20);
        for (int64_t x = c.v[1]; x <= c.v[2]; x++)
            for (int d : {6, 10}) one(a, k, (uint64_t)x, d);
        CHECK(offsets_seen == 0xFFFF, "the counters of this case do not reach every truncation offset"); // of the reference
    }
}
std::string describe(const mc::Case &c) {
    if (c.kind == 7) return mc::strf("HOTP/%s: %" PRId64 " codes in one process", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 1) return mc::strf("HOTP/%s, secret of %" PRId64 " bytes (pattern %" PRId64 "), six counters, 1 to 10 digits", alg_name[c.v[0]], c.v[1], c.v[2]);
    if (c.kind == 2) return mc::strf("HOTP/%s, 20-byte secret (pattern %" PRId64 "), counters around every power of two, 1 to 10 digits", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 4) return mc::strf("HOTP/%s, RFC 4226 secret, counters whose SHA-1 code has a rare number of leading zeros, 1 to 10 digits", alg_name[c.v[0]]);
    if (c.kind == 5 || c.kind == 8) return mc::strf("HOTP/%s, secret of %" PRId64 " bytes", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 6) return mc::strf("HOTP/%s, one secret buffer of %" PRId64 " bytes, each byte changed in turn", alg_name[c.v[0]], c.v[1]);
    return mc::strf("HOTP/%s, 20-byte secret, counters %" PRId64 " to %" PRId64, alg_name[c.v[0]], c.v[1], c.v[2]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        for (int a = 0; a < 12; a++)
            for (int64_t n : {4294967373ll, 2147483657ll}) if (T || a == A_SHA1) mc::at(8, {a, n});
        return;
    }
    for (int a = 0; a < 12; a++) {
        mc::at(4, {a});
        for (int64_t n = 1; n <= (T ? 200 : 70); n++) mc::at(6, {a, n});
        for (int k = 9; k <= (T ? 21 : 17); k++) for (int d = -1; d <= 1; d++) mc::at(5, {a, (1 << k) + d});
        for (int64_t n : {1000, 2000, 10000, 70000, (1 << 20) + 1, (1 << 24) + 1}) if (T || n < 1 << 21 || a == A_SHA1) mc::at(5, {a, n});
        for (int64_t kl = 0; kl <= (int64_t)block_size[a] * 2 + 3; kl++)
            for (int pat = 0; pat < (T ? 5 : 2); pat++) mc::at(1, {a, kl, pat ? pat : 4});
        for (int pat = 0; pat < (T ? 5 : 2); pat++) mc::at(2, {a, pat});
        for (int64_t x = 0; x < (T ? 40000 : 4000); x += 500) mc::at(3, {a, x, x + 499});
    }
    mc::offsets([&] {
        for (int a = 0; a < 12; a++)
            for (int64_t n = 1; n <= (T ? 2 * (int64_t)block_size[a] + 3 : 70); n += T || n < 20 ? 1 : 5) mc::at(1, {a, n, 4});
    });
    for (int a = 0; a < 12; a++) mc::at(7, {a, T ? 1 << 20 : 132000});
}
void selfcheck() {
    hash_selfcheck();
    for (int a = 0; a < 12; a++)
        for (int kl = 0; kl < 200; kl += 37)
            for (uint64_t ctr : {(uint64_t)0, (uint64_t)5, (uint64_t)1 << 40})
                for (int d : {1, 6, 9, 10}) {
                    Bytes k = pattern(0, (size_t)kl);
                    printf("REF hotp %s %d %" PRIu64 " %d %" PRId64 "\n", alg_name[a], kl, ctr, d, hotp(a, k.data(), k.size(), ctr, d));
                }
}
