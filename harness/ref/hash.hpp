// Independent reference models of the hash functions, written from the standards. Constants are derived
// (square and cube roots of primes, sines, LFSR) rather than listed. check.py compares them with Python's
// hashlib on every run.
#pragma once
#include "../place.hpp"
#include <exception>
#include <stdexcept>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <memory>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) && !defined(__SANITIZE_ADDRESS__)
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#endif

namespace ref {
typedef std::vector<uint8_t> Bytes;

enum Alg {
    A_MD5, A_SHA1, A_SHA224, A_SHA256, A_SHA384, A_SHA512, A_SHA512_224, A_SHA512_256,
    A_SHA3_224, A_SHA3_256, A_SHA3_384, A_SHA3_512, A_RAWSHAKE128, A_SHAKE128, A_RAWSHAKE256, A_SHAKE256, A_COUNT
};
static const char *const alg_name[A_COUNT] = {
    "md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256",
    "sha3_224", "sha3_256", "sha3_384", "sha3_512", "rawshake128", "shake128", "rawshake256", "shake256"};
static const size_t digest_size[A_COUNT] = {16, 20, 28, 32, 48, 64, 28, 32, 28, 32, 48, 64, 32, 32, 64, 64};
static const size_t block_size[A_COUNT] = {64, 64, 64, 64, 128, 128, 128, 128, 144, 136, 104, 72, 168, 168, 136, 136};

typedef unsigned __int128 u128;

inline std::vector<int> primes(int n) {
    std::vector<int> p;
    for (int c = 2; (int)p.size() < n; c++) {
        bool ok = true;
        for (int q : p) if (c % q == 0) { ok = false; break; }
        if (ok) p.push_back(c);
    }
    return p;
}
// First 64 bits of the fractional part of sqrt(n) or cbrt(n): floor(root * 2^64) mod 2^64, found bit by bit
// with exact big-integer arithmetic on 32-bit limbs.
struct Big {
    uint32_t w[12] = {0};
    static Big mul(const Big &a, const Big &b) {
        Big r;
        for (int i = 0; i < 12; i++) {
            uint64_t c = 0;
            for (int j = 0; i + j < 12; j++) {
                uint64_t t = (uint64_t)a.w[i] * b.w[j] + r.w[i + j] + c;
                r.w[i + j] = (uint32_t)t;
                c = t >> 32;
            }
        }
        return r;
    }
    static int cmp(const Big &a, const Big &b) {
        for (int i = 11; i >= 0; i--) if (a.w[i] != b.w[i]) return a.w[i] < b.w[i] ? -1 : 1;
        return 0;
    }
};
inline uint64_t root_frac(int n, int k) {
    Big target; // n * 2^(64k)
    target.w[2 * k] = (uint32_t)n;
    Big x;
    for (int bit = 64 + 5; bit >= 0; bit--) {
        x.w[bit / 32] |= 1u << (bit % 32);
        Big p = x;
        for (int i = 1; i < k; i++) p = Big::mul(p, x);
        if (Big::cmp(p, target) > 0) x.w[bit / 32] &= ~(1u << (bit % 32));
    }
    return ((uint64_t)x.w[1] << 32) | x.w[0];
}

template <class W> inline W rotr(W x, int n) { return (x >> n) | (x << (sizeof(W) * 8 - n)); }
template <class W> inline W rotl(W x, int n) { return n ? (W)((x << n) | (x >> (sizeof(W) * 8 - n))) : x; }

struct Tables {
    uint32_t k256[64], mdk[64];
    uint64_t k512[80], h512[8], h384[8], h512_224[8], h512_256[8], rc[24];
    uint32_t h256[8], h224[8];
    int rot[5][5];
};
inline void sha512_block(uint64_t h[8], const uint8_t *p, const uint64_t *K) {
    uint64_t w[80];
    for (int i = 0; i < 16; i++) {
        w[i] = 0;
        for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8 * i + j];
    }
    for (int i = 16; i < 80; i++) {
        uint64_t a = w[i - 15], b = w[i - 2];
        w[i] = w[i - 16] + w[i - 7] + (rotr(a, 1) ^ rotr(a, 8) ^ (a >> 7)) + (rotr(b, 19) ^ rotr(b, 61) ^ (b >> 6));
    }
    uint64_t s[8];
    memcpy(s, h, sizeof s);
    for (int i = 0; i < 80; i++) {
        uint64_t t1 = s[7] + (rotr(s[4], 14) ^ rotr(s[4], 18) ^ rotr(s[4], 41)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[i] + w[i];
        uint64_t t2 = (rotr(s[0], 28) ^ rotr(s[0], 34) ^ rotr(s[0], 39)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
        for (int j = 7; j > 0; j--) s[j] = s[j - 1];
        s[4] += t1;
        s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
}
inline void sha256_block(uint32_t h[8], const uint8_t *p, const uint32_t *K) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 64; i++) {
        uint32_t a = w[i - 15], b = w[i - 2];
        w[i] = w[i - 16] + w[i - 7] + (rotr(a, 7) ^ rotr(a, 18) ^ (a >> 3)) + (rotr(b, 17) ^ rotr(b, 19) ^ (b >> 10));
    }
    uint32_t s[8];
    memcpy(s, h, sizeof s);
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = s[7] + (rotr(s[4], 6) ^ rotr(s[4], 11) ^ rotr(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[i] + w[i];
        uint32_t t2 = (rotr(s[0], 2) ^ rotr(s[0], 13) ^ rotr(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
        for (int j = 7; j > 0; j--) s[j] = s[j - 1];
        s[4] += t1;
        s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
}
inline void sha1_block(uint32_t h[5], const uint8_t *p) {
    uint32_t w[80];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 80; i++) w[i] = rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
        uint32_t f, k;
        if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999;
        else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
        else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
        else f = b ^ c ^ d, k = 0xCA62C1D6;
        uint32_t t = rotl(a, 5) + f + e + k + w[i];
        e = d; d = c; c = rotl(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
inline void md5_block(uint32_t h[4], const uint8_t *p, const uint32_t *K) {
    static const int sh[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    uint32_t x[16];
    for (int i = 0; i < 16; i++) x[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) {
        uint32_t f;
        int g;
        switch (i / 16) {
        case 0: f = (b & c) | (~b & d); g = i; break;
        case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break;
        case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break;
        default: f = c ^ (b | ~d); g = (7 * i) % 16; break;
        }
        uint32_t t = d;
        d = c; c = b;
        b = b + rotl(a + f + K[i] + x[g], sh[i / 16][i % 4]);
        a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
inline const Tables &tables() {
    static const Tables T = [] {
        Tables t;
        auto p = primes(80);
        for (int i = 0; i < 80; i++) t.k512[i] = root_frac(p[i], 3);
        for (int i = 0; i < 64; i++) t.k256[i] = (uint32_t)(t.k512[i] >> 32);
        for (int i = 0; i < 8; i++) {
            t.h512[i] = root_frac(p[i], 2);
            t.h384[i] = root_frac(p[i + 8], 2);
            t.h256[i] = (uint32_t)(t.h512[i] >> 32);
            t.h224[i] = (uint32_t)t.h384[i];
        }
        for (int v = 0; v < 2; v++) {
            uint64_t *h = v ? t.h512_256 : t.h512_224;
            for (int i = 0; i < 8; i++) h[i] = t.h512[i] ^ 0xa5a5a5a5a5a5a5a5ull;
            uint8_t b[128] = {0};
            const char *nm = v ? "SHA-512/256" : "SHA-512/224";
            memcpy(b, nm, 11);
            b[11] = 0x80;
            b[127] = 88;
            sha512_block(h, b, t.k512);
        }
        for (int i = 0; i < 64; i++) t.mdk[i] = (uint32_t)(uint64_t)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0);
        // Keccak: rotation offsets and round constants
        int x = 1, y = 0;
        t.rot[0][0] = 0;
        for (int k = 0; k < 24; k++) {
            t.rot[x][y] = ((k + 1) * (k + 2) / 2) % 64;
            int ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        uint8_t lfsr = 1;
        for (int r = 0; r < 24; r++) {
            t.rc[r] = 0;
            for (int j = 0; j < 7; j++) {
                if (lfsr & 1) t.rc[r] |= 1ull << ((1 << j) - 1);
                lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr >> 7) * 0x71));
            }
        }
        return t;
    }();
    return T;
}
inline void keccak_f(uint64_t a[5][5]) { // a[x][y]
    const Tables &T = tables();
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], b[5][5];
        for (int x = 0; x < 5; x++) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        for (int x = 0; x < 5; x++) {
            uint64_t d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1);
            for (int y = 0; y < 5; y++) a[x][y] ^= d;
        }
        for (int x = 0; x < 5; x++)
            for (int y = 0; y < 5; y++) b[y][(2 * x + 3 * y) % 5] = rotl(a[x][y], T.rot[x][y]);
        for (int x = 0; x < 5; x++)
            for (int y = 0; y < 5; y++) a[x][y] = b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
        a[0][0] ^= T.rc[r];
    }
}

inline bool is_shake(int alg) { return alg >= A_RAWSHAKE128; }

// Streaming reference: update in any pieces, finish to get `bits` output bits (0: the default size).
class Ref {
    int alg;
    uint32_t s32[8];
    uint64_t s64[8];
    uint64_t ks[5][5];
    uint8_t buf[168];
    size_t fill = 0, bs;
    u128 total = 0;

    void block(const uint8_t *p) {
        const Tables &T = tables();
        switch (alg) {
        case A_MD5: md5_block(s32, p, T.mdk); break;
        case A_SHA1: sha1_block(s32, p); break;
        case A_SHA224: case A_SHA256: sha256_block(s32, p, T.k256); break;
        case A_SHA384: case A_SHA512: case A_SHA512_224: case A_SHA512_256: sha512_block(s64, p, T.k512); break;
        default:
            for (size_t i = 0; i < bs / 8; i++) {
                uint64_t l = 0;
                for (int j = 7; j >= 0; j--) l = l << 8 | p[8 * i + j];
                ks[i % 5][i / 5] ^= l;
            }
            keccak_f(ks);
        }
    }

public:
    explicit Ref(int a) : alg(a), bs(block_size[a]) {
        const Tables &T = tables();
        memset(ks, 0, sizeof ks);
        memset(s32, 0, sizeof s32);
        static const uint32_t h1[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
        switch (a) {
        case A_MD5: memcpy(s32, h1, 16); break;
        case A_SHA1: memcpy(s32, h1, 20); break;
        case A_SHA224: memcpy(s32, T.h224, 32); break;
        case A_SHA256: memcpy(s32, T.h256, 32); break;
        case A_SHA384: memcpy(s64, T.h384, 64); break;
        case A_SHA512: memcpy(s64, T.h512, 64); break;
        case A_SHA512_224: memcpy(s64, T.h512_224, 64); break;
        case A_SHA512_256: memcpy(s64, T.h512_256, 64); break;
        }
    }
    void update(const uint8_t *p, size_t n) {
        total += n;
        if (fill) {
            size_t k = bs - fill < n ? bs - fill : n;
            memcpy(buf + fill, p, k);
            fill += k; p += k; n -= k;
            if (fill == bs) { block(buf); fill = 0; }
        }
        for (; n >= bs && !fill; p += bs, n -= bs) block(p);
        if (n) { memcpy(buf + fill, p, n); fill += n; }
    }
    Bytes finish(uint64_t bits = 0) const {
        Ref r = *this;
        return r.finish_(bits);
    }

private:
    Bytes finish_(uint64_t bits) {
        Bytes out;
        if (alg >= A_SHA3_224) {
            uint8_t suffix = alg < A_RAWSHAKE128 ? 0x06 : (alg == A_RAWSHAKE128 || alg == A_RAWSHAKE256) ? 0x07 : 0x1F;
            memset(buf + fill, 0, bs - fill);
            buf[fill] ^= suffix;
            buf[bs - 1] ^= 0x80;
            block(buf);
            if (!bits) bits = digest_size[alg] * 8;
            size_t n = (size_t)((bits + 7) / 8);
            while (out.size() < n) {
                for (size_t i = 0; i < bs && out.size() < n; i++) out.push_back((uint8_t)(ks[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8))));
                if (out.size() < n) keccak_f(ks);
            }
            if (bits % 8) out.back() &= (uint8_t)((1 << (bits % 8)) - 1);
            return out;
        }
        u128 bl = total * 8;
        size_t lenb = bs == 64 ? 8 : 16;
        buf[fill++] = 0x80;
        if (fill > bs - lenb) {
            memset(buf + fill, 0, bs - fill);
            block(buf);
            fill = 0;
        }
        memset(buf + fill, 0, bs - fill);
        for (size_t i = 0; i < lenb; i++) {
            uint8_t b = (uint8_t)(bl >> (8 * i));
            if (alg == A_MD5) buf[bs - 8 + i] = b;
            else buf[bs - 1 - i] = b;
        }
        block(buf);
        for (size_t i = 0; i < digest_size[alg]; i++) {
            if (alg == A_MD5) out.push_back((uint8_t)(s32[i / 4] >> (8 * (i % 4))));
            else if (bs == 64) out.push_back((uint8_t)(s32[i / 4] >> (24 - 8 * (i % 4))));
            else out.push_back((uint8_t)(s64[i / 8] >> (56 - 8 * (i % 8))));
        }
        return out;
    }
};

inline Bytes digest(int alg, const void *p, size_t n, uint64_t bits = 0) {
    Ref r(alg);
    r.update((const uint8_t *)p, n);
    return r.finish(bits);
}
inline Bytes hmac(int alg, const void *key, size_t kn, const void *m, size_t n) {
    size_t bs = block_size[alg];
    Bytes k((const uint8_t *)key, (const uint8_t *)key + kn);
    if (kn > bs) k = digest(alg, key, kn);
    k.resize(bs, 0);
    Bytes ip = k, op = k;
    for (auto &b : ip) b ^= 0x36;
    for (auto &b : op) b ^= 0x5c;
    Ref i(alg), o(alg);
    i.update(ip.data(), bs);
    i.update((const uint8_t *)m, n);
    Bytes in = i.finish();
    o.update(op.data(), bs);
    o.update(in.data(), in.size());
    return o.finish();
}
// RFC 4226 code, or -1 when the truncation window leaves the digest (MD5 only).
inline int64_t hotp(int alg, const void *key, size_t kn, uint64_t counter, int digits) {
    uint8_t c[8];
    for (int i = 0; i < 8; i++) c[i] = (uint8_t)(counter >> (56 - 8 * i));
    Bytes h = hmac(alg, key, kn, c, 8);
    size_t off = h.back() & 15;
    if (off + 4 > h.size()) return -1;
    uint32_t v = (uint32_t)(h[off] & 0x7f) << 24 | h[off + 1] << 16 | h[off + 2] << 8 | h[off + 3];
    uint64_t mod = 1;
    for (int i = 0; i < digits && i < 11; i++) mod *= 10;
    return (int64_t)(v % mod);
}

// Message contents used by the enumerations: a few fixed patterns, each byte depending on its position.
inline uint8_t pattern_byte(int pat, size_t i) {
    switch (pat) {
    case 0: return (uint8_t)(i * 167 + (i >> 8) * 59 + (i >> 16) * 101 + 13);
    case 1: return 0;
    case 2: return 0xFF;
    case 3: return (uint8_t)(i & 1 ? 0x80 : 0x01);
    default: {
        uint64_t z = (i + 1) * 0x9E3779B97F4A7C15ull + (uint64_t)pat * 0xD1B54A32D192ED03ull;
        z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29;
        return (uint8_t)(z >> 24);
    }
    }
}
inline Bytes pattern(int pat, size_t n) {
    Bytes b(n);
    for (size_t i = 0; i < n; i++) b[i] = pattern_byte(pat, i);
    return b;
}
// Exact-size copy on the heap: one byte before or after it is a sanitizer error.
// A caller's buffer of exactly n bytes. Under AddressSanitizer the blocks of one size are used again at once (and
// poisoned in between), so that the same address and length keep coming back with other contents, as they do for a
// caller who works with one buffer.
struct Exact {
    size_t off; // bytes before the start
    uint8_t *base, *p;
    size_t n;
    // For n == 0 the pointer is one past a block, so any access through it is caught.
    explicit Exact(size_t n_, uint8_t fill = 0xEE) : off(place().next() + (n_ ? 0 : 1)), base(take(off + n_)), p(base + off), n(n_) {
        memset(base, CANARY, off);
        memset(p, fill, n);
    }
    Exact(const void *s, size_t n_) : Exact(n_) {
        if (n) memcpy(p, s, n);
    }
    ~Exact() noexcept(false) {
        bool good = true;
        for (size_t i = 0; i < off; i++) good = good && base[i] == CANARY;
        give(base, off + n);
        if (!good && !std::uncaught_exceptions()) throw std::runtime_error("the bytes before a buffer were written to");
    }
    Exact(const Exact &) = delete;

private:
    static constexpr uint8_t CANARY = 0xB7;
#ifdef __SANITIZE_ADDRESS__
    static constexpr size_t POOLED = 2048;
    static std::vector<uint8_t *> *pool(size_t k) {
        static thread_local auto *v = new std::vector<uint8_t *>[POOLED + 1];
        return v + k;
    }
    static uint8_t *take(size_t k) {
        if (k > POOLED || pool(k)->empty()) return (uint8_t *)malloc(k);
        uint8_t *b = pool(k)->back();
        pool(k)->pop_back();
        __asan_unpoison_memory_region(b, k);
        return b;
    }
    static void give(uint8_t *b, size_t k) {
        if (k > POOLED) return free(b);
        __asan_poison_memory_region(b, k);
        pool(k)->push_back(b);
    }
#else
    static uint8_t *take(size_t k) { return (uint8_t *)malloc(k); }
    static void give(uint8_t *b, size_t) { free(b); }
#endif
};
} // namespace ref
