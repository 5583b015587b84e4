// Reference Blowfish. The tables are computed: the first 33344 bits of the fraction of pi, by Machin's formula.
#pragma once
#include <cstdint>
#include <cstdio>
#include <vector>
#include "hash.hpp"
namespace ref {
struct PiTable {
    uint32_t w[18 + 1024];
    PiTable() {
        const int N = 18 + 1024 + 4; // fraction words, most significant first; [0] is the integer part
        typedef std::vector<uint32_t> V;
        auto div = [&](V &a, uint32_t d) {
            uint64_t r = 0;
            for (int i = 0; i <= N; i++) {
                uint64_t x = (r << 32) | a[i];
                a[i] = (uint32_t)(x / d);
                r = x % d;
            }
        };
        auto add = [&](V &a, const V &b) {
            uint64_t c = 0;
            for (int i = N; i >= 0; i--) {
                c += (uint64_t)a[i] + b[i];
                a[i] = (uint32_t)c;
                c >>= 32;
            }
        };
        auto sub = [&](V &a, const V &b) {
            int64_t c = 0;
            for (int i = N; i >= 0; i--) {
                int64_t x = (int64_t)a[i] - b[i] + c;
                a[i] = (uint32_t)x;
                c = x < 0 ? -1 : 0;
            }
        };
        auto zero = [&](const V &a) {
            for (uint32_t x : a) if (x) return false;
            return true;
        };
        auto atan_inv = [&](uint32_t x, uint32_t mul) {
            V term(N + 1, 0), sum(N + 1, 0);
            term[0] = mul;
            div(term, x);
            for (uint32_t k = 0; !zero(term); k++) {
                V t = term;
                div(t, 2 * k + 1);
                k % 2 ? sub(sum, t) : add(sum, t);
                div(term, x);
                div(term, x);
            }
            return sum;
        };
        V pi = atan_inv(5, 16);
        sub(pi, atan_inv(239, 4));
        for (int i = 0; i < 18 + 1024; i++) w[i] = pi[i + 1];
    }
};
inline const PiTable &pi_table() {
    static PiTable t;
    return t;
}
struct Blowfish {
    uint32_t P[18], S[4][256];
    Blowfish(const uint8_t *key, size_t n) {
        const uint32_t *w = pi_table().w;
        memcpy(S, w + 18, sizeof S);
        size_t j = 0;
        for (int i = 0; i < 18; i++) {
            uint32_t d = 0;
            for (int k = 0; k < 4; k++) {
                d = d << 8 | key[j];
                j = (j + 1) % n;
            }
            P[i] = w[i] ^ d;
        }
        uint32_t l = 0, r = 0;
        for (int i = 0; i < 18; i += 2) {
            enc(l, r);
            P[i] = l, P[i + 1] = r;
        }
        for (auto &row : S)
            for (int i = 0; i < 256; i += 2) {
                enc(l, r);
                row[i] = l, row[i + 1] = r;
            }
    }
    uint32_t F(uint32_t x) const { return ((S[0][x >> 24] + S[1][x >> 16 & 255]) ^ S[2][x >> 8 & 255]) + S[3][x & 255]; }
    void enc(uint32_t &l, uint32_t &r) const {
        for (int i = 0; i < 16; i += 2) {
            l ^= P[i];
            r ^= F(l);
            r ^= P[i + 1];
            l ^= F(r);
        }
        uint32_t t = l ^ P[16];
        l = r ^ P[17];
        r = t;
    }
    void dec(uint32_t &l, uint32_t &r) const {
        uint32_t t = r ^ P[16];
        r = l ^ P[17];
        l = t;
        for (int i = 14; i >= 0; i -= 2) {
            l ^= F(r);
            r ^= P[i + 1];
            r ^= F(l);
            l ^= P[i];
        }
    }
    Bytes ecb(bool encrypt, const uint8_t *p, size_t n) const {
        Bytes b(p, p + n);
        b.resize((n + 7) / 8 * 8, 0);
        for (size_t o = 0; o < b.size(); o += 8) {
            uint32_t l = (uint32_t)b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3], r = (uint32_t)b[o + 4] << 24 | b[o + 5] << 16 | b[o + 6] << 8 | b[o + 7];
            encrypt ? enc(l, r) : dec(l, r);
            for (int i = 0; i < 4; i++) b[o + i] = (uint8_t)(l >> (24 - 8 * i)), b[o + 4 + i] = (uint8_t)(r >> (24 - 8 * i));
        }
        return b;
    }
};
inline void bf_selfcheck() {
    // Eric Young's published vectors: key, plaintext, ciphertext
    static const uint64_t v[][3] = {
        {0x0000000000000000ull, 0x0000000000000000ull, 0x4EF997456198DD78ull}, {0xFFFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFFull, 0x51866FD5B85ECB8Aull},
        {0x3000000000000000ull, 0x1000000000000001ull, 0x7D856F9A613063F2ull}, {0x1111111111111111ull, 0x1111111111111111ull, 0x2466DD878B963C9Dull},
        {0x0123456789ABCDEFull, 0x1111111111111111ull, 0x61F9C3802281B096ull}, {0x1111111111111111ull, 0x0123456789ABCDEFull, 0x7D0CC630AFDA1EC7ull},
        {0xFEDCBA9876543210ull, 0x0123456789ABCDEFull, 0x0ACEAB0FC6A0A28Dull}, {0x7CA110454A1A6E57ull, 0x01A1D6D039776742ull, 0x59C68245EB05282Bull},
        {0x0131D9619DC1376Eull, 0x5CD54CA83DEF57DAull, 0xB1B8CC0B250F09A0ull}, {0x07A1133E4A0B2686ull, 0x0248D43806F67172ull, 0x1730E5778BEA1DA4ull}};
    for (auto &t : v) {
        uint8_t k[8], p[8];
        for (int i = 0; i < 8; i++) k[i] = (uint8_t)(t[0] >> (56 - 8 * i)), p[i] = (uint8_t)(t[1] >> (56 - 8 * i));
        Bytes c = Blowfish(k, 8).ecb(true, p, 8);
        printf("REF bf %016llX ", (unsigned long long)t[2]);
        for (uint8_t x : c) printf("%02x", x);
        printf("\n");
    }
}
} // namespace ref
