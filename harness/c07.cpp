// C07: one-shot and algorithm-selected HMAC over every key length and message length in range.
#include "mc.hpp"
#include "api.hpp"
#include "huge.hpp"
using namespace ref;

// kind 2: more than 2^32 bytes of message (v[1] = 0) or key (1), one-shot (v[2] = 0), algorithm-selected or by context
static void huge_case(const mc::Case &c) {
    int alg = (int)c.v[0];
    size_t n = (size_t)huge::B32 + 77;
    const uint8_t *w = huge::window().p, *k = c.v[1] ? w : (const uint8_t *)"key", *m = c.v[1] ? (const uint8_t *)"msg" : w;
    size_t kn = c.v[1] ? n : 3, mn = c.v[1] ? 3 : n;
    Bytes out(digest_size[alg]);
    if (c.v[2] == 0) api::hmac[alg].oneshot(k, kn, m, mn, out.data());
    else if (c.v[2] == 1) pgfe_hmac(api::choice[alg], k, kn, m, mn, out.data());
    else {
        api::Ctx x(api::hmac[alg].ctx_size, 0xD7);
        api::hmac[alg].init(x.p);
        api::hmac[alg].set_key(x.p, k, kn);
        api::hmac[alg].update(x.p, m, mn);
        api::hmac[alg].digest(x.p, out.data());
    }
    mc::count("executions")++;
    mc::outcome(out.data(), out.size(), (uint64_t)alg);
    const std::string &want = huge::digest_of(std::string(c.v[1] ? "hmackey_" : "hmac_") + alg_name[alg], n);
    CHECK(mc::hex(out.data(), out.size(), 99) == want, "%s: got %s want %s", describe(c).c_str(), mc::hex(out.data(), out.size(), 99).c_str(), want.c_str());
}
static void all_forms(int alg, const uint8_t *kp, size_t kn, const uint8_t *mp, size_t mn, const char *what) {
    Bytes want = hmac(alg, kp, kn, mp, mn);
    for (int form = 0; form < 3; form++) {
        Exact out(digest_size[alg], (uint8_t)(form * 77));
        if (form == 0) api::hmac[alg].oneshot(kp, kn, mp, mn, out.p);
        else if (form == 1) pgfe_hmac(api::choice[alg], kp, kn, mp, mn, out.p);
        else {
            api::Ctx x(api::hmac[alg].ctx_size, 0xD7);
            api::hmac[alg].init(x.p);
            api::hmac[alg].set_key(x.p, kp, kn);
            api::hmac[alg].update(x.p, mp, mn);
            api::hmac[alg].digest(x.p, out.p);
        }
        mc::count("executions")++;
        mc::outcome(out.p, out.n, (uint64_t)alg);
        CHECK(!memcmp(out.p, want.data(), want.size()), "HMAC-%s (form %d), %zu-byte key and %zu-byte message, %s: got %s want %s", alg_name[alg], form, kn, mn, what,
              mc::hex(out.p, out.n).c_str(), mc::hex(want.data(), want.size()).c_str());
    }
}
// kind 3: v = alg: key and message are any two subranges of one buffer
static void shared_case(int alg) {
    size_t bs = block_size[alg];
    std::vector<size_t> pt{0, 1, bs - 1, bs, bs + 1, 2 * bs + 3};
    Bytes b = pattern(4, pt.back());
    Exact x(b.data(), b.size());
    for (size_t i : pt) for (size_t j : pt) for (size_t k : pt) for (size_t l : pt)
        if (i <= j && k <= l) all_forms(alg, x.p + i, j - i, x.p + k, l - k, mc::strf("the key at %zu and the message at %zu of one buffer", i, k).c_str());
}
// kind 4: v = alg, key length, message length: the same two buffers, one byte changed between the calls
static void reused_case(int alg, size_t kn, size_t mn) {
    Bytes k = pattern(4, kn), m = pattern(0, mn);
    Exact ke(k.data(), kn), me(m.data(), mn);
    for (size_t i = 0; i < kn + mn; i++) {
        all_forms(alg, ke.p, kn, me.p, mn, "buffers used before");
        uint8_t &x = i < kn ? ke.p[i] : me.p[i - kn];
        x ^= (uint8_t)(1 << i % 8);
        all_forms(alg, ke.p, kn, me.p, mn, i < kn ? "one byte of the key buffer changed" : "one byte of the message buffer changed");
    }
}
// kind 5: v = alg, count: the same calls again and again
static void again(int alg, int64_t count) {
    size_t bs = block_size[alg];
    Bytes k = pattern(4, bs + 9), m = pattern(0, 50), o(digest_size[alg]), w[3];
    for (int j = 0; j < 3; j++) w[j] = hmac(alg, k.data(), j == 2 ? bs + 9 : 20, m.data(), j == 1 ? 50 : 8);
    for (int64_t i = 1; i <= count; i++) {
        int j = i % 3;
        size_t kn = j == 2 ? bs + 9 : 20, mn = j == 1 ? 50 : 8;
        if (i % 2) api::hmac[alg].oneshot(k.data(), kn, m.data(), mn, o.data());
        else pgfe_hmac(api::choice[alg], k.data(), kn, m.data(), mn, o.data());
        mc::count("executions")++;
        if (i % 4096 == 0) mc::tick();
        CHECK(o == w[j], "HMAC-%s, key of %zu bytes, message of %zu, call number %" PRId64 ": got %s want %s", alg_name[alg], kn, mn, i, mc::hex(o.data(), o.size()).c_str(), mc::hex(w[j].data(), o.size()).c_str());
    }
}
// v = alg, key length, message length, key pattern
void run_case(const mc::Case &c) {
    if (c.kind == 2) return huge_case(c);
    if (c.kind == 3) return shared_case((int)c.v[0]);
    if (c.kind == 5) return again((int)c.v[0], c.v[1]);
    if (c.kind == 4) return reused_case((int)c.v[0], (size_t)c.v[1], (size_t)c.v[2]);
    int alg = (int)c.v[0];
    size_t kn = (size_t)c.v[1], mn = (size_t)c.v[2];
    Bytes k = pattern((int)c.v[3], kn), m = pattern(0, mn);
    Bytes want = hmac(alg, k.data(), kn, m.data(), mn);
    Exact ke(k.data(), kn), me(m.data(), mn);
    for (int form = 0; form < 3; form++) {
        Exact out(digest_size[alg], (uint8_t)(form * 77));
        if (form == 0) api::hmac[alg].oneshot(ke.p, kn, me.p, mn, out.p);
        else if (form == 1) pgfe_hmac(api::choice[alg], ke.p, kn, me.p, mn, out.p);
        else {
            api::Ctx x(api::hmac[alg].ctx_size, 0xD7);
            api::hmac[alg].init(x.p);
            api::hmac[alg].set_key(x.p, ke.p, kn);
            api::hmac[alg].update(x.p, me.p, mn);
            api::hmac[alg].digest(x.p, out.p);
        }
        mc::count("executions")++;
        Bytes got(out.p, out.p + out.n);
        mc::outcome(got.data(), got.size(), (uint64_t)alg);
        static const char *f[] = {"one-shot", "algorithm-selected", "context"};
        CHECK(got == want, "%s HMAC-%s, %zu-byte key (pattern %d), %zu-byte message: got %s want %s", f[form], alg_name[alg], kn, (int)c.v[3], mn,
              mc::hex(got.data(), got.size()).c_str(), mc::hex(want.data(), want.size()).c_str());
        CHECK(!memcmp(ke.p, k.data(), kn) && !memcmp(me.p, m.data(), mn), "%s HMAC-%s changes its input", f[form], alg_name[alg]);
    }
}
std::string describe(const mc::Case &c) {
    if (c.kind == 5) return mc::strf("HMAC-%s, %" PRId64 " calls in one process", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 2) return mc::strf("HMAC-%s of a %s of 2^32 + 77 bytes, %s", alg_name[c.v[0]], c.v[1] ? "key" : "message", c.v[2] == 0 ? "one-shot" : c.v[2] == 1 ? "algorithm-selected" : "by context");
    if (c.kind == 3) return mc::strf("HMAC-%s: key and message are subranges of one buffer", alg_name[c.v[0]]);
    if (c.kind == 4) return mc::strf("HMAC-%s: key buffer of %" PRId64 " and message buffer of %" PRId64 " bytes, each byte changed in turn", alg_name[c.v[0]], c.v[1], c.v[2]);
    return mc::strf("HMAC-%s key %" PRId64 " message %" PRId64 " key pattern %" PRId64, alg_name[c.v[0]], c.v[1], c.v[2], c.v[3]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        for (int a = 11; a >= 0; a--)
            for (int k = 0; k < 2; k++)
                for (int f = 0; f < 3; f++) if (T || a == A_MD5) mc::at(2, {a, k, f});
        return;
    }
    for (int a = 0; a < 12; a++) {
        int bs = (int)block_size[a];
        for (int k = 0; k <= 3 * bs + 10; k++)
            for (int m : {0, 1, bs - 9, bs, 2 * bs + 1})
                for (int p = 0; p < (T ? 7 : 4); p++) mc::at(1, {a, k, m, p});
        for (int m = 0; m <= 3 * bs + 10; m++)
            for (int k : {0, 1, bs - 1, bs, bs + 1, 2 * bs + 3})
                for (int p = 0; p < (T ? 7 : 3); p++) mc::at(1, {a, k, m, p});
        mc::at(3, {a});
        for (int k : {1, 5, 20, bs - 1, bs, bs + 1}) for (int m : {0, 1, 8, bs}) mc::at(4, {a, k, m});
        if (T)
            for (int k = 0; k <= 2 * bs + 10; k++)
                for (int m = 0; m <= 2 * bs + 10; m++) mc::at(1, {a, k, m, 4});
        for (int e = 8; e <= (T ? 20 : 17); e++)
            for (int d = -1; d <= 1; d++) {
                mc::at(1, {a, (1 << e) + d, 5, 0});
                mc::at(1, {a, 5, (1 << e) + d, 0});
            }
    }
    mc::offsets([&] {
        for (int a = 0; a < 12; a++) {
            int bs = (int)block_size[a];
            for (int k = 1; k <= 2 * bs + 3; k += T ? 1 : 3) for (int m : {1, bs + 1}) mc::at(1, {a, k, m, 0});
            for (int m = 1; m <= 2 * bs + 3; m += T ? 1 : 3) for (int k : {5, bs, bs + 1}) mc::at(1, {a, k, m, 0});
        }
    });
    for (int a = 0; a < 12; a++) mc::at(5, {a, T ? 1 << 20 : 132000});
}
void selfcheck() {
    hash_selfcheck();
    for (int a = 0; a < 12; a++)
        for (int k = 0; k < 300; k += 13)
            for (int m = 0; m < 300; m += 37) {
                Bytes kk = pattern(0, (size_t)k), mm = pattern(0, (size_t)m), d = hmac(a, kk.data(), kk.size(), mm.data(), mm.size());
                printf("REF hmac %s %d %d %s\n", alg_name[a], k, m, mc::hex(d.data(), d.size(), 99).c_str());
            }
}
