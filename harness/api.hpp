// Uniform table over the public C API of libpgfe.
#pragma once
#include <stdio.h>
#include "libpgfe/generic.h"
#include "libpgfe/hashes.h"
#include "libpgfe/hmac/hmac.h"
#include "ref/hash.hpp"

namespace api {
using ref::Bytes;
typedef const pgfe_encode_t *In;
typedef pgfe_encode_t *Out;

static const pgfe_algorithm_choice choice[16] = {
    MD5, SHA1, SHA224, SHA256, SHA384, SHA512, SHA512_224, SHA512_256, SHA3_224, SHA3_256, SHA3_384, SHA3_512,
    RawSHAKE128, SHAKE128, RawSHAKE256, SHAKE256};

struct Hash {
    size_t ctx_size, dsize, bsize;
    void (*init)(void *);
    void (*update)(void *, In, size_t);
    void (*digest)(void *, Out, size_t bits);
    void (*encode)(In, size_t, Out, size_t bits);
    void (*encode_default)(In, Out, size_t bits);
    void (*encode_f)(FILE *, Out, size_t bits);
    void (*multi)(Out, size_t bits, size_t n, const void *const *p, const size_t *l); // n <= 6
};
struct Hmac {
    size_t ctx_size;
    void (*init)(void *);
    void (*set_key)(void *, In, size_t);
    void (*update)(void *, In, size_t);
    void (*digest)(void *, Out);
    void (*oneshot)(In, size_t, In, size_t, Out);
};

#define PL(i) p[i], l[i]
#define MULTI_SWITCH(call)                                                                                             \
    switch (n) {                                                                                                       \
    case 0: call((size_t)0); break;                                                                                    \
    case 1: call((size_t)1, PL(0)); break;                                                                             \
    case 2: call((size_t)2, PL(0), PL(1)); break;                                                                      \
    case 3: call((size_t)3, PL(0), PL(1), PL(2)); break;                                                               \
    case 4: call((size_t)4, PL(0), PL(1), PL(2), PL(3)); break;                                                        \
    case 5: call((size_t)5, PL(0), PL(1), PL(2), PL(3), PL(4)); break;                                                 \
    case 6: call((size_t)6, PL(0), PL(1), PL(2), PL(3), PL(4), PL(5)); break;                                          \
    case 7: call((size_t)7, PL(0), PL(1), PL(2), PL(3), PL(4), PL(5), PL(6)); break;                                   \
    case 8: call((size_t)8, PL(0), PL(1), PL(2), PL(3), PL(4), PL(5), PL(6), PL(7)); break;                            \
    }

#define FIXED(nm, up)                                                                                                  \
    {                                                                                                                  \
        sizeof(struct pgfe_##nm##_ctx), PGFE_##up##_DIGEST_SIZE, PGFE_##up##_BLOCK_SIZE,                               \
        [](void *c) { pgfe_##nm##_init((struct pgfe_##nm##_ctx *)c); },                                                \
        [](void *c, In d, size_t n) { pgfe_##nm##_update((struct pgfe_##nm##_ctx *)c, d, n); },                        \
        [](void *c, Out o, size_t) { pgfe_##nm##_digest((struct pgfe_##nm##_ctx *)c, o); },                            \
        [](In d, size_t n, Out o, size_t) { pgfe_##nm##_encode(d, n, o); },                                            \
        [](In d, Out o, size_t) { pgfe_##nm##_encode_default(d, o); },                                                 \
        [](FILE *f, Out o, size_t) { pgfe_##nm##_encode_f(f, o); },                                                    \
        [](Out o, size_t, size_t n, const void *const *p, const size_t *l) {                                           \
            auto call = [&](auto... a) { pgfe_##nm##_encode_multiple(o, a...); };                                      \
            MULTI_SWITCH(call)                                                                                         \
        }                                                                                                              \
    }
#define SHAKE(nm, up)                                                                                                  \
    {                                                                                                                  \
        sizeof(struct pgfe_##nm##_ctx), PGFE_##up##_DIGEST_SIZE, PGFE_##up##_BLOCK_SIZE,                               \
        [](void *c) { pgfe_##nm##_init((struct pgfe_##nm##_ctx *)c); },                                                \
        [](void *c, In d, size_t n) { pgfe_##nm##_update((struct pgfe_##nm##_ctx *)c, d, n); },                        \
        [](void *c, Out o, size_t b) { pgfe_##nm##_digest((struct pgfe_##nm##_ctx *)c, o, b); },                       \
        [](In d, size_t n, Out o, size_t b) { pgfe_##nm##_encode(d, n, o, b); },                                       \
        [](In d, Out o, size_t b) { pgfe_##nm##_encode_default(d, o, b); },                                            \
        [](FILE *f, Out o, size_t b) { pgfe_##nm##_encode_f(f, o, b); },                                               \
        [](Out o, size_t b, size_t n, const void *const *p, const size_t *l) {                                         \
            auto call = [&](auto... a) { pgfe_##nm##_encode_multiple(o, b, a...); };                                   \
            MULTI_SWITCH(call)                                                                                         \
        }                                                                                                              \
    }

static const Hash hash[16] = {
    FIXED(md5, MD5), FIXED(sha1, SHA1), FIXED(sha224, SHA224), FIXED(sha256, SHA256), FIXED(sha384, SHA384),
    FIXED(sha512, SHA512), FIXED(sha512_224, SHA512_224), FIXED(sha512_256, SHA512_256), FIXED(sha3_224, SHA3_224),
    FIXED(sha3_256, SHA3_256), FIXED(sha3_384, SHA3_384), FIXED(sha3_512, SHA3_512), SHAKE(rawshake128, RawSHAKE128),
    SHAKE(shake128, SHAKE128), SHAKE(rawshake256, RawSHAKE256), SHAKE(shake256, SHAKE256)};

#define HM(nm)                                                                                                         \
    {                                                                                                                  \
        sizeof(struct pgfe_hmac_##nm##_ctx), [](void *c) { pgfe_hmac_##nm##_init((struct pgfe_hmac_##nm##_ctx *)c); }, \
        [](void *c, In k, size_t n) { pgfe_hmac_##nm##_set_key((struct pgfe_hmac_##nm##_ctx *)c, k, n); },             \
        [](void *c, In d, size_t n) { pgfe_hmac_##nm##_update((struct pgfe_hmac_##nm##_ctx *)c, d, n); },              \
        [](void *c, Out o) { pgfe_hmac_##nm##_digest((struct pgfe_hmac_##nm##_ctx *)c, o); },                          \
        [](In k, size_t kn, In d, size_t n, Out o) { pgfe_hmac_##nm(k, kn, d, n, o); }                                 \
    }
static const Hmac hmac[12] = {HM(md5), HM(sha1), HM(sha224), HM(sha256), HM(sha384), HM(sha512), HM(sha512_224),
                              HM(sha512_256), HM(sha3_224), HM(sha3_256), HM(sha3_384), HM(sha3_512)};

// A context in exact-size heap memory, aligned, prefilled with a byte pattern.
struct Ctx {
    void *p;
    size_t n;
    Ctx(size_t n_, int fill = 0xA5) : p(malloc(n_)), n(n_) {
        if (fill < 256) memset(p, fill, n);
        else for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)(i * 41 + fill);
    }
    Ctx(const Ctx &o) : p(malloc(o.n)), n(o.n) { memcpy(p, o.p, n); }
    ~Ctx() { free(p); }
};
} // namespace api

// Reference values for the conformance check against hashlib: REF <alg> <len> <hex> over pattern 0.
inline void hash_selfcheck() {
    for (int a = 0; a < 16; a++)
        for (size_t n = 0; n <= 300; n += (n < 150 ? 1 : 7)) {
            ref::Bytes m = ref::pattern(0, n);
            ref::Bytes d = ref::digest(a, m.data(), n, a >= 12 ? 8 * (n + 1) : 0);
            printf("REF hash %s %zu ", ref::alg_name[a], n);
            for (uint8_t b : d) printf("%02x", b);
            printf("\n");
        }
}
