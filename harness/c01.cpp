// C01: one-shot digests of the 12 fixed-length hashes against the reference, over exhaustive length and
// content families.
#include "mc.hpp"
#include "api.hpp"
using namespace ref;

static void compare(int alg, const Bytes &m, const Bytes &got, const char *what) {
    Bytes want = digest(alg, m.data(), m.size());
    mc::count("executions")++;
    mc::outcome(got.data(), got.size());
    CHECK(got == want, "%s %s of %zu bytes: got %s want %s", alg_name[alg], what, m.size(), mc::hex(got.data(), got.size()).c_str(),
          mc::hex(want.data(), want.size()).c_str());
}
static void one(int alg, const Bytes &m) {
    Exact in(m.data(), m.size()), out(digest_size[alg]);
    api::hash[alg].encode(in.p, in.n, out.p, 0);
    compare(alg, m, Bytes(out.p, out.p + out.n), "digest");
}
void run_case(const mc::Case &c) {
    int alg = (int)c.v[0];
    switch (c.kind) {
    case 1: one(alg, pattern((int)c.v[2], (size_t)c.v[1])); break;
    case 2: { // string form
        Bytes m = pattern((int)c.v[2], (size_t)c.v[1]);
        for (auto &b : m) if (!b) b = 1;
        Bytes z = m;
        z.push_back(0);
        Exact in(z.data(), z.size()), out(digest_size[alg]);
        api::hash[alg].encode_default(in.p, out.p, 0);
        compare(alg, m, Bytes(out.p, out.p + out.n), "string digest");
        break;
    }
    case 3: { // every value of one byte
        Bytes m = pattern(0, (size_t)c.v[1]);
        for (int v = 0; v < 256; v++) {
            m[(size_t)c.v[2]] = (uint8_t)v;
            one(alg, m);
        }
        break;
    }
    case 4: { // every two-byte message with this first byte
        for (int v = 0; v < 256; v++) one(alg, Bytes{(uint8_t)c.v[1], (uint8_t)v});
        break;
    }
    case 5: { // unaligned start
        Bytes m = pattern(4, (size_t)c.v[1]);
        Bytes raw(m.size() + 16);
        memcpy(raw.data() + c.v[2], m.data(), m.size());
        Bytes out(digest_size[alg]);
        api::hash[alg].encode(raw.data() + c.v[2], m.size(), out.data(), 0);
        compare(alg, m, out, "unaligned digest");
        break;
    }
    case 8: { // the same calls again and again
        size_t bs = block_size[alg];
        Bytes m = pattern(4, 2 * bs), o(digest_size[alg]), w[3] = {digest(alg, m.data(), 3), digest(alg, m.data(), bs), digest(alg, m.data(), 2 * bs - 7)};
        for (int64_t i = 1; i <= c.v[1]; i++) {
            size_t n = i % 3 == 0 ? 3 : i % 3 == 1 ? bs : 2 * bs - 7;
            api::hash[alg].encode(m.data(), n, o.data(), 0);
            mc::count("executions")++;
            if (i % 4096 == 0) mc::tick();
            CHECK(o == w[i % 3], "%s digest of %zu bytes, call number %" PRId64 ": got %s want %s", alg_name[alg], n, i, mc::hex(o.data(), o.size()).c_str(), mc::hex(w[i % 3].data(), o.size()).c_str());
        }
        break;
    }
    case 7: { // one buffer whose contents change in one byte between the calls
        Bytes m = pattern(0, (size_t)c.v[1]);
        for (size_t i = 0; i < m.size(); i++) {
            one(alg, m);
            m[i] ^= (uint8_t)(1 << i % 8);
            one(alg, m);
        }
        break;
    }
    case 6: { // every length base .. base + count, the reference extended a byte at a time
        Bytes m = pattern(0, (size_t)(c.v[1] + c.v[2]));
        Ref r(alg);
        r.update(m.data(), (size_t)c.v[1]);
        for (size_t n = (size_t)c.v[1]; n <= m.size(); n++) {
            size_t res = n % block_size[alg];
            if (!c.v[3] || res <= 1 || res == block_size[alg] - 1 || res == block_size[alg] / 2 || (res >= block_size[alg] - 17 && res <= block_size[alg] - 16) ||
                (res >= block_size[alg] - 9 && res <= block_size[alg] - 8)) {
                Bytes out(digest_size[alg]), want = r.finish();
                api::hash[alg].encode(m.data(), n, out.data(), 0);
                mc::count("executions")++;
                mc::outcome(out.data(), out.size());
                mc::tick();
                CHECK(out == want, "%s digest of %zu bytes: got %s want %s", alg_name[alg], n, mc::hex(out.data(), out.size()).c_str(), mc::hex(want.data(), want.size()).c_str());
            }
            if (n < m.size()) r.update(&m[n], 1);
        }
        break;
    }
    }
}
std::string describe(const mc::Case &c) {
    static const char *k[] = {"", "digest", "string-digest", "all values of one byte", "all two-byte messages", "unaligned digest", "digests of every length from a to a+b (selected residues if the last is 1),", "digests of one buffer, every byte changed in turn,", "that many digests in one process:"};
    return mc::strf("%s %s a=%" PRId64 " b=%" PRId64 " %" PRId64, alg_name[c.v[0]], k[c.kind], c.v[1], c.v[2], c.v[3]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) { // long messages: every place of the last block at every power of two
        for (int k = T ? 26 : 24; k >= 11; k--)
            for (int a = 11; a >= 0; a--) {
                int bs = (int)block_size[a];
                mc::at(6, {a, (1 << k) - bs - 1, 2 * bs + 3, k > (T ? 22 : 19)});
            }
        return;
    }
    int maxlen = T ? 8300 : 1300, pats = T ? 8 : 5;
    for (int n = 0; n <= maxlen; n++)
        for (int a = 0; a < 12; a++) {
            for (int p = 0; p < pats; p++) mc::at(1, {a, n, p});
            mc::at(2, {a, n, 4});
        }
    for (int a = 0; a < 12; a++) {
        int bs = (int)block_size[a];
        for (int L : {1, bs - 17, bs - 9, bs - 8, bs - 1, bs, bs + 1, 2 * bs}) {
            if (!T && L != bs - 9 && L != bs) continue;
            for (int p = 0; p < L; p++) mc::at(3, {a, L, p});
        }
        for (int n = 1; n <= (T ? 4 * bs : bs + 20); n++) mc::at(7, {a, n, 0});
        for (int b = 0; b < 256; b++) mc::at(4, {a, b, 0});
        for (int off = 1; off < 16; off++)
            for (int n : {1, 7, bs - 1, bs, bs + 1, 3 * bs + 5}) mc::at(5, {a, n, off});
    }
    for (int k = 11; k <= (T ? 24 : 20); k++)
        for (int d = -2; d <= 2; d++)
            for (int a = 0; a < 12; a++) mc::at(1, {a, (1 << k) + d, 0});
    for (int n : {100000, 999983, 1234567})
        for (int a = 0; a < 12; a++) mc::at(1, {a, n, 5});
    mc::offsets([&] {
        for (int a = 0; a < 12; a++) {
            int bs = (int)block_size[a];
            for (int n = 1; n <= (T ? 4 * bs + 20 : 2 * bs + 10); n++) mc::at(n % 7 ? 1 : 2, {a, n, 4});
        }
    });
    for (int a = 0; a < 12; a++) mc::at(8, {a, T ? 1 << 22 : 132000});
}
void selfcheck() { hash_selfcheck(); }
