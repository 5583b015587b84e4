// Reference model of the five RFC 4648 encodings. check.py compares it with Python's base64 module.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include "hash.hpp"

namespace ref {
enum Enc { E16, E32, E32HEX, E64, E64URL, ENC_COUNT };
static const char *const enc_name[ENC_COUNT] = {"16", "32", "32hex", "64", "64url"};
static const int enc_bits[ENC_COUNT] = {4, 5, 5, 6, 6};
static const int enc_unit[ENC_COUNT] = {1, 5, 5, 3, 3};  // bytes
static const int enc_chunk[ENC_COUNT] = {2, 8, 8, 4, 4}; // characters
inline char enc_char(int e, int v) {
    if (e == E16) return v < 10 ? (char)('0' + v) : (char)('A' + v - 10);
    if (e == E32) return v < 26 ? (char)('A' + v) : (char)('2' + v - 26);
    if (e == E32HEX) return v < 10 ? (char)('0' + v) : (char)('A' + v - 10);
    if (v < 26) return (char)('A' + v);
    if (v < 52) return (char)('a' + v - 26);
    if (v < 62) return (char)('0' + v - 52);
    return v == 62 ? (e == E64URL ? '-' : '+') : (e == E64URL ? '_' : '/');
}
// Value of a character in the decoder's alphabet, -1: not a letter of it, -2: padding.
inline int enc_value(int e, unsigned char c) {
    if (c == '=' && e != E16) return -2;
    if (e >= E64) {
        if (c == '+' || c == '-') return 62;
        if (c == '/' || c == '_') return 63;
        for (int v = 0; v < 62; v++) if (enc_char(E64, v) == (char)c) return v;
        return -1;
    }
    char u = (c >= 'a' && c <= 'z') ? (char)(c - 32) : (char)c;
    for (int v = 0; v < (1 << enc_bits[e]); v++) if (enc_char(e, v) == u) return v;
    return -1;
}
struct EncTable {
    signed char v[ENC_COUNT][256];
    EncTable() {
        for (int e = 0; e < ENC_COUNT; e++)
            for (int c = 0; c < 256; c++) v[e][c] = (signed char)enc_value(e, (unsigned char)c);
    }
};
inline const EncTable &enc_table() {
    static EncTable t;
    return t;
}
inline std::string base_encode(int e, const uint8_t *p, size_t n, bool pad = true) {
    std::string s;
    uint32_t acc = 0;
    int have = 0, b = enc_bits[e];
    for (size_t i = 0; i < n; i++) {
        acc = (acc << 8) | p[i];
        have += 8;
        while (have >= b) {
            s += enc_char(e, (acc >> (have - b)) & ((1 << b) - 1));
            have -= b;
        }
    }
    if (have) s += enc_char(e, (acc << (b - have)) & ((1 << b) - 1));
    if (pad) while (s.size() % (size_t)enc_chunk[e]) s += '=';
    return s;
}
inline Bytes base_decode(int e, const char *s) {
    Bytes out;
    uint32_t acc = 0;
    int have = 0;
    const signed char *t = enc_table().v[e];
    for (; *s; s++) {
        int v = t[(unsigned char)*s];
        if (v == -2) break;
        if (v < 0) continue;
        acc = (acc << enc_bits[e]) | (uint32_t)v;
        have += enc_bits[e];
        if (have >= 8) {
            out.push_back((uint8_t)(acc >> (have - 8)));
            have -= 8;
        }
    }
    return out;
}
inline void base_selfcheck() {
    for (int e = 0; e < ENC_COUNT; e++)
        for (size_t n = 0; n < 40; n++)
            for (int pat = 0; pat < 5; pat++) {
                Bytes b = pattern(pat, n);
                printf("REF base %s ", enc_name[e]);
                for (uint8_t x : b) printf("%02x", x);
                printf(" %s\n", base_encode(e, b.data(), n).c_str());
            }
}
} // namespace ref
