/* C37: a C (and C++) program that uses the C interface as a consumer would; writes what it sees to o. Included by the
   harness (reference) and by every generated program. Needs the .h headers, <stdio.h>, <stdarg.h> and <string.h>. */
#ifndef C37_OUT
#define C37_OUT
typedef struct { char *p; size_t n, cap; } c37_out;
static void c37_put(c37_out *o, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int k = vsnprintf(o->p + o->n, o->cap - o->n, f, ap);
    va_end(ap);
    if (k > 0 && o->n + (size_t)k < o->cap) o->n += (size_t)k;
}
static void c37_hex(c37_out *o, const char *what, const void *d, size_t n) {
    const unsigned char *b = (const unsigned char *)d;
    c37_put(o, "%s ", what);
    for (size_t i = 0; i < n; i++) c37_put(o, "%02x", b[i]);
    c37_put(o, "\n");
}
static const unsigned char *c37_data(size_t n) {
    static unsigned char d[1024];
    for (size_t i = 0; i < n && i < sizeof d; i++) d[i] = (unsigned char)(i * 31 + (i >> 3) + 7);
    return d;
}
static FILE *c37_file(size_t n) {
    FILE *f = tmpfile();
    if (f) fwrite(c37_data(n), 1, n, f), rewind(f);
    return f;
}
#endif
#define C37_K(x) c37_put(o, #x " %llu\n", (unsigned long long)(x));
#define C37_T(x) c37_put(o, "sizeof " #x " %llu\n", (unsigned long long)sizeof(x));
/* a context between guards, so that a size the caller sees and the library does not is noticed */
#define C37_CTX(alg) struct { unsigned char a[64]; struct pgfe_##alg##_ctx c; unsigned char z[64]; } g; memset(&g, 0xA5, sizeof g);
#define C37_GUARD(what) for (int gi = 0; gi < 64; gi++) if (g.a[gi] != 0xA5 || g.z[gi] != 0xA5) { c37_put(o, "guard " what "\n"); break; }
#define C37_HASH(alg, UP) { \
    unsigned char out[128], out2[128]; FILE *f; \
    C37_K(PGFE_##UP##_DIGEST_SIZE) C37_K(PGFE_##UP##_BLOCK_SIZE) C37_T(struct pgfe_##alg##_ctx) \
    for (size_t n = 0; n < 300; n += 71) { \
        memset(out, 0, sizeof out); pgfe_##alg##_encode(c37_data(n), n, out); c37_hex(o, #alg, out, PGFE_##UP##_DIGEST_SIZE); \
        C37_CTX(alg) memset(out2, 0, sizeof out2); pgfe_##alg##_init(&g.c); pgfe_##alg##_update(&g.c, c37_data(n), n / 3); \
        pgfe_##alg##_update(&g.c, c37_data(n) + n / 3, n - n / 3); pgfe_##alg##_digest(&g.c, out2); C37_GUARD(#alg) \
        if (memcmp(out, out2, PGFE_##UP##_DIGEST_SIZE)) c37_put(o, "differs\n"); } \
    memset(out, 0, sizeof out); pgfe_##alg##_encode_default((const pgfe_encode_t *)"abc", out); c37_hex(o, #alg "_default", out, PGFE_##UP##_DIGEST_SIZE); \
    memset(out, 0, sizeof out); pgfe_##alg##_encode_multiple(out, (size_t)2, "ab", (size_t)2, "cde", (size_t)3); c37_hex(o, #alg "_multiple", out, PGFE_##UP##_DIGEST_SIZE); \
    f = c37_file(700); if (f) { memset(out, 0, sizeof out); pgfe_##alg##_encode_f(f, out); fclose(f); c37_hex(o, #alg "_f", out, PGFE_##UP##_DIGEST_SIZE); } }
#define C37_XOF(alg, UP) { \
    unsigned char out[256]; FILE *f; \
    C37_K(PGFE_##UP##_DIGEST_SIZE) C37_K(PGFE_##UP##_BLOCK_SIZE) C37_T(struct pgfe_##alg##_ctx) \
    for (size_t n = 0; n < 400; n += 133) { \
        memset(out, 0, sizeof out); pgfe_##alg##_encode(c37_data(n), n, out, 8 * (64 + n / 4)); c37_hex(o, #alg, out, 64 + n / 4); \
        C37_CTX(alg) memset(out, 0, sizeof out); pgfe_##alg##_init(&g.c); pgfe_##alg##_update(&g.c, c37_data(n), n); \
        pgfe_##alg##_digest(&g.c, out, 1600); C37_GUARD(#alg) c37_hex(o, #alg " ctx", out, 200); } \
    memset(out, 0, sizeof out); pgfe_##alg##_encode_default((const pgfe_encode_t *)"abc", out, 512); c37_hex(o, #alg "_default", out, 64); \
    memset(out, 0, sizeof out); pgfe_##alg##_encode_multiple(out, (size_t)512, (size_t)2, "ab", (size_t)2, "cde", (size_t)3); c37_hex(o, #alg "_multiple", out, 64); \
    f = c37_file(700); if (f) { memset(out, 0, sizeof out); pgfe_##alg##_encode_f(f, out, 512); fclose(f); c37_hex(o, #alg "_f", out, 64); } }
#define C37_HMAC(alg, UP) { \
    unsigned char out[128], out2[128]; C37_T(struct pgfe_hmac_##alg##_ctx) \
    for (size_t k = 0; k < 200; k += 67) { \
        memset(out, 0, sizeof out); pgfe_hmac_##alg(c37_data(k), k, c37_data(150), 150, out); c37_hex(o, "hmac " #alg, out, PGFE_##UP##_DIGEST_SIZE); \
        memset(out2, 0, sizeof out2); pgfe_hmac(UP, c37_data(k), k, c37_data(150), 150, out2); if (memcmp(out, out2, PGFE_##UP##_DIGEST_SIZE)) c37_put(o, "differs\n"); \
        C37_CTX(hmac_##alg) memset(out2, 0, sizeof out2); pgfe_hmac_##alg##_init(&g.c); pgfe_hmac_##alg##_set_key(&g.c, c37_data(k), k); \
        pgfe_hmac_##alg##_update(&g.c, c37_data(150), 150); pgfe_hmac_##alg##_digest(&g.c, out2); C37_GUARD("hmac " #alg) \
        if (memcmp(out, out2, PGFE_##UP##_DIGEST_SIZE)) c37_put(o, "differs\n"); } }
static void C37_NAME(c37_out *o) {
    C37_K(MD5) C37_K(SHA1) C37_K(SHA224) C37_K(SHA256) C37_K(SHA384) C37_K(SHA512) C37_K(SHA512_224) C37_K(SHA512_256) C37_K(SHA3_224) C37_K(SHA3_256)
    C37_K(SHA3_384) C37_K(SHA3_512) C37_K(RawSHAKE128) C37_K(SHAKE128) C37_K(RawSHAKE256) C37_K(SHAKE256)
    C37_T(enum pgfe_algorithm_choice) C37_T(pgfe_encode_t) C37_T(pgfe_byte_t) C37_T(pgfe_ascii_t) C37_T(pgfe_word_t) C37_T(pgfe_word64_t) C37_T(pgfe_fake_uint64_t)
    C37_T(pgfe_otp_t) C37_T(pgfe_otp_counter_t) C37_T(pgfe_otp_secret_t) C37_T(pgfe_totp_interval_t) C37_T(pgfe_totp_delta_t) C37_T(pgfe_blowfish_block_t)
    C37_T(struct pgfe_blowfish_ctx) C37_T(struct pgfe_keccak_sponge_ctx) C37_T(time_t) C37_T(size_t)
    C37_K((pgfe_encode_t)-1) C37_K((pgfe_otp_t)-1) C37_K((pgfe_otp_counter_t)-1) C37_K((pgfe_totp_interval_t)-1) C37_K((pgfe_totp_delta_t)-1 < 0)
    C37_K(PGFE_BUFFER_SIZE) C37_K(pgfe_to_bit(5 + 1)) C37_K(pgfe_to_byte(64 + 64)) C37_K(pgfe_bit_rem(30 + 7))
    C37_K(LIBPGFE_MAJOR_VERSION) C37_K(LIBPGFE_MINOR_VERSION) C37_K(LIBPGFE_REVISION) c37_put(o, "%s/%s\n", LIBPGFE_VERSION, LIBPGFE_VARIANT);
    C37_K(PGFE_BASE16_UNIT_SIZE) C37_K(PGFE_BASE16_CHUNK_COUNT) C37_K(PGFE_BASE16_BIT_SIZE) C37_K(PGFE_BASE16_ALPHABET_SIZE)
    C37_K(PGFE_BASE32_UNIT_SIZE) C37_K(PGFE_BASE32_CHUNK_COUNT) C37_K(PGFE_BASE32_BIT_SIZE) C37_K(PGFE_BASE32_ALPHABET_SIZE)
    C37_K(PGFE_BASE64_UNIT_SIZE) C37_K(PGFE_BASE64_CHUNK_COUNT) C37_K(PGFE_BASE64_BIT_SIZE) C37_K(PGFE_BASE64_ALPHABET_SIZE)
    C37_HASH(md5, MD5) C37_HASH(sha1, SHA1) C37_HASH(sha224, SHA224) C37_HASH(sha256, SHA256) C37_HASH(sha384, SHA384) C37_HASH(sha512, SHA512)
    C37_HASH(sha512_224, SHA512_224) C37_HASH(sha512_256, SHA512_256) C37_HASH(sha3_224, SHA3_224) C37_HASH(sha3_256, SHA3_256) C37_HASH(sha3_384, SHA3_384) C37_HASH(sha3_512, SHA3_512)
    C37_XOF(shake128, SHAKE128) C37_XOF(shake256, SHAKE256) C37_XOF(rawshake128, RawSHAKE128) C37_XOF(rawshake256, RawSHAKE256)
    C37_HMAC(md5, MD5) C37_HMAC(sha1, SHA1) C37_HMAC(sha224, SHA224) C37_HMAC(sha256, SHA256) C37_HMAC(sha384, SHA384) C37_HMAC(sha512, SHA512)
    C37_HMAC(sha512_224, SHA512_224) C37_HMAC(sha512_256, SHA512_256) C37_HMAC(sha3_224, SHA3_224) C37_HMAC(sha3_256, SHA3_256) C37_HMAC(sha3_384, SHA3_384) C37_HMAC(sha3_512, SHA3_512)
    for (size_t n = 0; n < 60; n += 7) {
        char t[256];
        unsigned char b[256];
#define C37_BASE(enc, dec) memset(t, 0, sizeof t); memset(b, 0, sizeof b); c37_put(o, #enc " %d %s ", (int)enc(c37_data(n), n, t), t); c37_put(o, "%d ", (int)dec(t, b)); c37_hex(o, "", b, n);
        C37_BASE(pgfe_encode_base16, pgfe_decode_base16) C37_BASE(pgfe_encode_base32, pgfe_decode_base32) C37_BASE(pgfe_encode_base32hex, pgfe_decode_base32hex)
        C37_BASE(pgfe_encode_base64, pgfe_decode_base64) C37_BASE(pgfe_encode_base64_url, pgfe_decode_base64)
        C37_BASE(pgfe_hash_to_hex_string, pgfe_hex_string_to_hash)
#undef C37_BASE
    }
    {
        char t[64];
        memset(t, 0, sizeof t);
        c37_put(o, "clean %d ", (int)pgfe_hash_string_clean("0x12ABcd", t));
        c37_put(o, "%s %d ", t, (int)pgfe_hash_length("0x1234"));
        strcpy(t, "12 34");
        c37_put(o, "%d ", (int)pgfe_hash_string_clean_(t));
        c37_put(o, "%s\n", t);
    }
    for (uint64_t c = 0; c < 3; c++) {
        uint64_t ctr = c * 0x123456789abULL;
        c37_put(o, "hotp %u %u %u %u %u\n", (unsigned)pgfe_hotp(c37_data(20), 20, ctr, 9), (unsigned)pgfe_hotp_4digits(c37_data(20), 20, ctr), (unsigned)pgfe_hotp_6digits(c37_data(20), 20, ctr),
                (unsigned)pgfe_hotp_8digits(c37_data(20), 20, ctr), (unsigned)pgfe_hotp_generic(SHA512, c37_data(64), 64, ctr, 8));
    }
    {   /* one interval reaches from 1970 to 2038, so that the clock does not matter (the remaining time is not shown) */
        pgfe_totp_delta_t d = 0;
        c37_put(o, "totp %u %u %u %u %u", (unsigned)pgfe_totp(c37_data(20), 20, 9, 2147483647, &d), (unsigned)pgfe_totp_4digits(c37_data(20), 20, 2147483647, &d),
                (unsigned)pgfe_totp_6digits(c37_data(20), 20, 2147483647, &d), (unsigned)pgfe_totp_8digits(c37_data(20), 20, 2147483647, &d),
                (unsigned)pgfe_totp_generic(SHA256, c37_data(32), 32, 8, 2147483647, 5, &d));
        c37_put(o, " %d\n", d != 0);
    }
    {
        unsigned char e[64], p[64];
        pgfe_fake_uint64_t u;
        C37_CTX(blowfish)
        memset(e, 0, sizeof e), memset(p, 0, sizeof p);
        pgfe_blowfish_init(&g.c, c37_data(17), 17);
        c37_put(o, "blowfish %d ", (int)pgfe_blowfish_encrypt(&g.c, c37_data(40), 40, e));
        c37_put(o, "%d ", (int)pgfe_blowfish_decrypt(&g.c, e, 40, p));
        c37_hex(o, "", e, 40);
        c37_hex(o, "", p, 40);
        u.left = 0x01234567, u.right = 0x89abcdef;
        pgfe_blowfish_encrypt_unit(&g.c, &u);
        c37_put(o, "%08x %08x ", (unsigned)u.left, (unsigned)u.right);
        pgfe_blowfish_decrypt_unit(&g.c, &u);
        c37_put(o, "%08x %08x\n", (unsigned)u.left, (unsigned)u.right);
        C37_GUARD("blowfish")
    }
}
#undef C37_K
#undef C37_T
#undef C37_CTX
#undef C37_GUARD
#undef C37_HASH
#undef C37_XOF
#undef C37_HMAC
