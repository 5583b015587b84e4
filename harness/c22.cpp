// C22: the block cipher for every key length, keys that differ in one bit or byte, and blocks that set every bit,
// against a reference whose tables are computed from pi; decryption back; schedules replaced by a second key.
#include "mc.hpp"
#include "api.hpp"
#include "libpgfe/fishes/blowfish.h"
#include "ref/blowfish.hpp"
using namespace ref;

static std::vector<std::pair<uint32_t, uint32_t>> blocks(bool all) {
    std::vector<std::pair<uint32_t, uint32_t>> v{{0, 0}, {~0u, ~0u}, {0, ~0u}, {~0u, 0}, {0x01234567, 0x89ABCDEF}, {0x80000000, 1}};
    if (all)
        for (int b = 0; b < 64; b++) v.push_back({b < 32 ? 1u << b : 0, b < 32 ? 0 : 1u << (b - 32)});
    return v;
}
static void check(struct pgfe_blowfish_ctx *x, const Blowfish &r, const Bytes &key, bool all, const char *how) {
    for (auto &b : blocks(all)) {
        uint32_t l = b.first, rr = b.second;
        r.enc(l, rr);
        pgfe_fake_uint64_t u;
        u.left = b.first, u.right = b.second;
        pgfe_blowfish_encrypt_unit(x, &u);
        static uint64_t &ex = mc::count("executions");
        ex++;
        mc::outcome(&u, 8);
        CHECK(u.left == l && u.right == rr, "key of %zu bytes %s%s, block %08x %08x: encrypted to %08x %08x, want %08x %08x", key.size(), mc::hex(key.data(), key.size(), 56).c_str(), how, b.first,
              b.second, u.left, u.right, l, rr);
        pgfe_blowfish_decrypt_unit(x, &u);
        CHECK(u.left == b.first && u.right == b.second, "key of %zu bytes %s%s, block %08x %08x: decrypts to %08x %08x", key.size(), mc::hex(key.data(), key.size(), 56).c_str(), how, b.first, b.second,
              u.left, u.right);
        // decryption of the block itself, not only of its ciphertext
        l = b.first, rr = b.second;
        r.dec(l, rr);
        u.left = b.first, u.right = b.second;
        pgfe_blowfish_decrypt_unit(x, &u);
        CHECK(u.left == l && u.right == rr, "key of %zu bytes %s%s, block %08x %08x: decrypted to %08x %08x, want %08x %08x", key.size(), mc::hex(key.data(), key.size(), 56).c_str(), how, b.first,
              b.second, u.left, u.right, l, rr);
    }
}
static void one(const Bytes &key, bool all, int fill) {
    api::Ctx c(sizeof(struct pgfe_blowfish_ctx), fill);
    auto *x = (struct pgfe_blowfish_ctx *)c.p;
    Exact k(key.data(), key.size());
    pgfe_blowfish_init(x, k.p, k.n);
    CHECK(!memcmp(k.p, key.data(), key.size()), "pgfe_blowfish_init changed its key");
    Blowfish r(key.data(), key.size());
    check(x, r, key, all, "");
    // a second key replaces the first completely, whatever lengths the two have
    size_t n2 = key.size() % 56 + 1;
    Bytes k2 = pattern(6, n2);
    pgfe_blowfish_init(x, k2.data(), n2);
    check(x, Blowfish(k2.data(), n2), k2, false, " (after another key)");
}
// Blocks chosen so that the round function of one round, when enciphering or deciphering, gets a chosen word while the
// other half is another: the reference run backwards from that state.
static void inside(const Bytes &key, bool T) {
    Blowfish r(key.data(), key.size());
    api::Ctx c(sizeof(struct pgfe_blowfish_ctx), 0xA5);
    auto *x = (struct pgfe_blowfish_ctx *)c.p;
    pgfe_blowfish_init(x, key.data(), key.size());
    std::vector<uint32_t> vs{0, ~0u, 1, 0x80000000u, 0x7FFFFFFFu};
    for (int b = 0; b < 4; b++) for (uint32_t v = 0; v < 256; v++) vs.push_back(v << (8 * b));
    for (int b = 0; b < 4; b++) for (uint32_t v = 0; v < 256; v += T ? 1 : 5) vs.push_back(~(v << (8 * b)));
    for (int way = 0; way < 2; way++)
        for (int round = 0; round < 16; round++)
            for (size_t i = 0; i < vs.size(); i++)
                for (uint32_t w : {0u, ~0u, 0x9E3779B9u, vs[i]}) {
                    if (i > 5 && w != 0x9E3779B9u && !T) continue;
                    uint32_t L = vs[i] ^ r.P[way ? 17 - round : round], R = w;
                    for (int j = round - 1; j >= 0; j--) {
                        uint32_t pl = R ^ r.P[way ? 17 - j : j], pr = L ^ r.F(R);
                        L = pl, R = pr;
                    }
                    static uint64_t &ex = mc::count("executions");
                    ex++;
                    uint32_t el = L, er = R;
                    way ? r.dec(el, er) : r.enc(el, er);
                    pgfe_fake_uint64_t u;
                    u.left = L, u.right = R;
                    way ? pgfe_blowfish_decrypt_unit(x, &u) : pgfe_blowfish_encrypt_unit(x, &u);
                    CHECK(u.left == el && u.right == er, "key of %zu bytes %s, block %08x %08x (round %d sees %08x, the other half is %08x): %s to %08x %08x, want %08x %08x", key.size(),
                          mc::hex(key.data(), key.size(), 56).c_str(), L, R, round, vs[i], w, way ? "decrypted" : "encrypted", u.left, u.right, el, er);
                    way ? pgfe_blowfish_encrypt_unit(x, &u) : pgfe_blowfish_decrypt_unit(x, &u);
                    CHECK(u.left == L && u.right == R, "key of %zu bytes %s, block %08x %08x (round %d sees %08x): does not come back: %08x %08x", key.size(), mc::hex(key.data(), key.size(), 56).c_str(), L, R,
                          round, vs[i], u.left, u.right);
                    if (i < 8) mc::outcome(&u, 8);
                }
}
// One schedule and one key buffer, a bit of the key changed between two uses; and two schedules in turn.
static void reused(size_t n) {
    Bytes k = pattern(4, n);
    Exact x(k.data(), n);
    api::Ctx c(sizeof(struct pgfe_blowfish_ctx), 0xA5), c2(sizeof(struct pgfe_blowfish_ctx), 0);
    auto *s = (struct pgfe_blowfish_ctx *)c.p, *s2 = (struct pgfe_blowfish_ctx *)c2.p;
    pgfe_blowfish_init(s2, x.p, n);
    Blowfish first(k.data(), n);
    for (size_t i = 0; i < n; i++) {
        k[i] ^= (uint8_t)(1 << i % 8);
        x.p[i] = k[i];
        pgfe_blowfish_init(s, x.p, n);
        check(s, Blowfish(k.data(), n), k, false, " (the same buffer, one bit changed)");
        check(s2, first, k, false, " (the first key of this length, another schedule in between)");
    }
}
// kind 6: v = what, count: one schedule, count keys (0), or one key and count blocks (1)
static void longrun(int what, uint64_t count) {
    Bytes k[2] = {pattern(0, 16), pattern(4, 56)};
    Blowfish r[2] = {Blowfish(k[0].data(), 16), Blowfish(k[1].data(), 56)};
    api::Ctx c(sizeof(struct pgfe_blowfish_ctx), 0xA5);
    auto *x = (struct pgfe_blowfish_ctx *)c.p;
    int at = 0;
    for (uint64_t i = 1; i <= count; i++) {
        if (i % 1024 == 0) mc::tick();
        if (what == 0 || i == 1) pgfe_blowfish_init(x, k[at = i % 3 == 1].data(), k[at].size());
        pgfe_fake_uint64_t u;
        uint32_t l = (uint32_t)(i * 0x9E3779B9u), rr = (uint32_t)i;
        u.left = l, u.right = rr;
        bool enc = i % 2;
        enc ? pgfe_blowfish_encrypt_unit(x, &u) : pgfe_blowfish_decrypt_unit(x, &u);
        enc ? r[at].enc(l, rr) : r[at].dec(l, rr);
        mc::count("executions")++;
        CHECK(u.left == l && u.right == rr, "%s number %" PRIu64 " of one schedule: %s to %08x %08x, want %08x %08x", what ? "block" : "key", i, enc ? "encrypted" : "decrypted", u.left, u.right, l, rr);
    }
}
// kind 1: v = length, pattern.  kind 2: v = length, byte position: every value.  kind 3: v = first byte, 2-byte keys
void run_case(const mc::Case &c) {
    if (c.kind == 1) one(pattern((int)c.v[1], (size_t)c.v[0]), true, (int)(c.v[0] * 7 % 256));
    else if (c.kind == 2) {
        Bytes k = pattern(0, (size_t)c.v[0]);
        for (int x = 0; x < 256; x += (int)c.v[2]) {
            k[(size_t)c.v[1]] = (uint8_t)x;
            one(k, false, 0xA5);
        }
    }
    else if (c.kind == 6) longrun((int)c.v[0], (uint64_t)c.v[1]);
    else if (c.kind == 5) reused((size_t)c.v[0]);
    else if (c.kind == 4) inside(pattern((int)c.v[1], (size_t)c.v[0]), c.v[2] != 0);
    else
        for (int x = 0; x < 256; x++) one(Bytes{(uint8_t)c.v[0], (uint8_t)x}, false, 0);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 6) return mc::strf("one schedule, %" PRId64 " %s", c.v[1], c.v[0] ? "blocks" : "keys");
    if (c.kind == 1) return mc::strf("key of %" PRId64 " bytes, pattern %" PRId64 ": 70 blocks", c.v[0], c.v[1]);
    if (c.kind == 2) return mc::strf("key of %" PRId64 " bytes, byte %" PRId64 " takes every value", c.v[0], c.v[1]);
    if (c.kind == 4) return mc::strf("key of %" PRId64 " bytes, pattern %" PRId64 ": blocks that put chosen words into every round", c.v[0], c.v[1]);
    if (c.kind == 5) return mc::strf("one key buffer of %" PRId64 " bytes, one bit of every byte changed in turn", c.v[0]);
    return mc::strf("every 2-byte key that begins with %" PRId64, c.v[0]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int n = 1; n <= 56; n++) {
        mc::at(5, {n});
        for (int p = 0; p < (T ? 40 : 8); p++) mc::at(1, {n, p});
        for (int pos = 0; pos < n; pos++)
            if (T || n == 1 || pos == 0 || pos == n - 1 || n == 56) mc::at(2, {n, pos, T || n < 4 ? 1 : 17});
    }
    for (int n = 1; n <= 56; n++)
        for (int p = 0; p < 6; p += T ? 1 : 5) mc::at(4, {n, p, T});
    for (int x = 0; x < 256; x += T ? 1 : 37) mc::at(3, {x});
    mc::offsets([&] {
        for (int n = 1; n <= 56; n += T || n < 9 ? 1 : 5) mc::at(1, {n, 0});
    });
    mc::at(6, {0, T ? 1 << 18 : 66000});
    mc::at(6, {1, T ? 1 << 27 : 1 << 22});
}
void selfcheck() { bf_selfcheck(); }
