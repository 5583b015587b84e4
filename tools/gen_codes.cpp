// Searches HOTP counters (RFC 4226 test secret) whose truncated 31-bit value is extreme: for every digit count, every
// number of leading zeros; values closest to 0 and to 2^31-1. Writes harness/otpcodes.hpp. Slow; run by hand.
#include <thread>
#include <utility>
#include <mutex>
#include <map>
#include <cstdio>
#include <cstdlib>
#include "../harness/ref/hash.hpp"
using namespace ref;
constexpr uint64_t p10(int d) { return d ? 10 * p10(d - 1) : 1; }
struct Sha1 {
    static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
    static void block(uint32_t *s, const uint32_t *m) {
        uint32_t w[80], a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
        for (int i = 0; i < 16; i++) w[i] = m[i];
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999;
            else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
            else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
            else f = b ^ c ^ d, k = 0xCA62C1D6;
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d, d = c, c = rol(b, 30), b = a, a = t;
        }
        s[0] += a, s[1] += b, s[2] += c, s[3] += d, s[4] += e;
    }
};
static const char key[] = "12345678901234567890";
static std::mutex mu;
struct Best { uint64_t ctr; uint32_t val; bool has = false; };
static std::map<int, Best> best; // digits * 100 + zeros; 9000: smallest; 9001: largest
static void offer(int k, uint64_t ctr, uint32_t v, bool force = false) {
    std::lock_guard<std::mutex> g(mu);
    auto &b = best[k];
    if (!b.has || force) b.ctr = ctr, b.val = v, b.has = true;
}
int main(int argc, char **argv) {
    uint64_t N = strtoull(argv[1], 0, 0);
    int T = argc > 2 ? atoi(argv[2]) : 8;
    uint32_t in[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}, outs[5];
    memcpy(outs, in, 20);
    uint32_t m[16];
    for (int p = 0; p < 2; p++) {
        for (int i = 0; i < 16; i++) {
            uint32_t x = 0;
            for (int j = 0; j < 4; j++) x = x << 8 | (uint32_t)((i * 4 + j < 20 ? (uint8_t)key[i * 4 + j] : 0) ^ (p ? 0x5c : 0x36));
            m[i] = x;
        }
        Sha1::block(p ? outs : in, m);
    }
    std::vector<std::thread> th;
    uint32_t lo = 0xFFFFFFFF, hi = 0;
    for (int t = 0; t < T; t++)
        th.emplace_back([=, &lo, &hi] {
            bool seen[11][11] = {};
            uint32_t mylo = 1000, myhi = 0x7FFFFFFF - 1000;
            for (uint64_t c = (uint64_t)t; c < N; c += (uint64_t)T) {
                uint32_t s[5], o[5], b[16] = {(uint32_t)(c >> 32), (uint32_t)c, 0x80000000};
                b[15] = (64 + 8) * 8;
                memcpy(s, in, 20);
                Sha1::block(s, b);
                uint32_t b2[16] = {s[0], s[1], s[2], s[3], s[4], 0x80000000};
                b2[15] = (64 + 20) * 8;
                memcpy(o, outs, 20);
                Sha1::block(o, b2);
                int off = o[4] & 15;
                uint64_t w = (uint64_t)o[off / 4] << 32 | (off / 4 < 4 ? o[off / 4 + 1] : 0);
                uint32_t v = (uint32_t)(w >> (32 - 8 * (off % 4))) & 0x7FFFFFFF;
                if (v < mylo) { mylo = v; std::lock_guard<std::mutex> g(mu); if (v < lo) lo = v, best[9000] = {c, v, true}; }
                if (v > myhi) { myhi = v; std::lock_guard<std::mutex> g(mu); if (v > hi) hi = v, best[9001] = {c, v, true}; }
                auto one = [&](auto D) {
                    constexpr int d = decltype(D)::value;
                    constexpr uint64_t p = p10(d);
                    uint64_t r = v % p, q = p / 10;
                    int z = 0;
                    while (__builtin_expect(z < d && r < q, 0)) q /= 10, z++;
                    if (!q) z = d;
                    if (__builtin_expect(!seen[d][z], 0)) seen[d][z] = true, offer(d * 100 + z, c, v);
                };
                [&]<int... I>(std::integer_sequence<int, I...>) { (one(std::integral_constant<int, I + 1>()), ...); }(std::make_integer_sequence<int, 10>());
            }
        });
    for (auto &x : th) x.join();
    FILE *f = fopen("/verif/harness/otpcodes.hpp", "w");
    fprintf(f, "// Written by tools/gen_codes.cpp: HOTP counters for secret \"12345678901234567890\" and SHA-1 whose value is rare.\n#pragma once\n#include <cstdint>\nstatic const struct RareCode {\n    int digits, zeros;\n    uint64_t counter;\n    uint32_t value;\n} rare_codes[] = {\n");
    for (auto &e : best) {
        if ((uint32_t)hotp(A_SHA1, key, 20, e.second.ctr, 10) != e.second.val) { printf("mismatch %d\n", e.first); return 1; }
        fprintf(f, "    {%d, %d, %lluu, %uu},\n", e.first >= 9000 ? 10 : e.first / 100, e.first >= 9000 ? -1 : e.first % 100, (unsigned long long)e.second.ctr, e.second.val);
    }
    fprintf(f, "};\n");
}
