// C04: messages whose bit or byte count passes 2^32, 2^31 or 2^32, by every delivery form.
// Expected digests come from data/long_digests.txt (tools/gen_long.py: Python hashlib; RawSHAKE by the
// reference model).
#include "mc.hpp"
#include "api.hpp"
#include "huge.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
using namespace ref;
using namespace huge;

// first bytes of the digests of base, base + 1, ... bytes (tools/gen_sweep.py)
static const std::string &sweep(const std::string &alg, uint64_t base) {
    static std::map<std::pair<std::string, uint64_t>, std::string> m;
    if (m.empty()) {
        std::ifstream f(VERIF_DIR "/data/long_sweeps.txt");
        std::string a, hex;
        uint64_t n;
        while (f >> a >> n >> hex) m[{a, n}] = hex;
    }
    return m[{alg, base}];
}
// v = alg, total length, first piece, following pieces (0: all the rest at once)
void run_case(const mc::Case &c) {
    int alg = (int)c.v[0];
    size_t n = (size_t)c.v[1], first = (size_t)c.v[2], step = (size_t)c.v[3];
    const uint8_t *p = window().p;
    const api::Hash &H = api::hash[alg];
    Bytes out(digest_size[alg]);
    size_t bits = alg >= 12 ? 8 * digest_size[alg] : 0;
    std::string key = alg_name[alg];
    switch (c.kind) {
    case 1: {
        api::Ctx x(H.ctx_size, 0x77);
        H.init(x.p);
        size_t done = 0;
        if (first) H.update(x.p, p, first), done = first;
        while (done < n) {
            size_t k = step ? std::min(step, n - done) : n - done;
            H.update(x.p, p + done, k);
            done += k;
            mc::count("updates")++;
            if (!(done & 0xfffff)) mc::tick();
        }
        const std::string &sw = sweep(alg_name[alg], n);
        if (!sw.empty()) { // the lengths that follow, so that the end of the message falls on every place of a block
            for (size_t i = 0; i < sw.size() / 8; i++)
                for (int bytewise = 0; bytewise < 2; bytewise++) {
                    api::Ctx y(x);
                    if (!bytewise) H.update(y.p, p + n, i);
                    else for (size_t j = 0; j < i; j++) H.update(y.p, p + n + j, 1);
                    H.digest(y.p, out.data(), bits);
                    mc::count("executions")++;
                    CHECK(mc::hex(out.data(), 4) == sw.substr(8 * i, 8), "%s, then %zu more%s: got %s..., want %s...", describe(c).c_str(), i, bytewise ? ", byte by byte" : "",
                          mc::hex(out.data(), 4).c_str(), sw.substr(8 * i, 8).c_str());
                }
            mc::outcome(out.data(), out.size());
            return;
        }
        H.digest(x.p, out.data(), bits);
        break;
    }
    case 2: H.encode(p, n, out.data(), bits); break;
    case 3: {
        libpgfe::HashEncoder e(api::choice[alg]);
        e.update(p, n);
        const libpgfe::SequentialData *d = e.get_digest();
        out.assign(d->begin(), d->end());
        break;
    }
    case 4: {
        libpgfe::HMACEncoder e(api::choice[alg], (api::In) "key", 3);
        e.update(p, n);
        const libpgfe::SequentialData *d = e.get_digest();
        out.assign(d->begin(), d->end());
        key = "hmac_" + key;
        break;
    }
    case 5: {
        const void *pp[2] = {p, p + first};
        size_t ll[2] = {first, n - first};
        H.multi(out.data(), bits, 2, pp, ll);
        break;
    }
    case 6: { // a key of 2^32 bytes and more
        api::hmac[alg].oneshot(p, n, (api::In) "msg", 3, out.data());
        key = "hmackey_" + key;
        break;
    }
    }
    mc::count("executions")++;
    mc::count("bytes") += n;
    mc::outcome(out.data(), out.size());
    const std::string &want = digest_of(key, n);
    CHECK(mc::hex(out.data(), out.size(), 99) == want, "%s: got %s want %s", describe(c).c_str(), mc::hex(out.data(), out.size(), 99).c_str(), want.c_str());
}
std::string describe(const mc::Case &c) {
    static const char *k[] = {"", "context", "one-shot", "HashEncoder", "HMACEncoder", "multi-buffer", "HMAC key"};
    return mc::strf("%s %s, %" PRId64 " bytes, first piece %" PRId64 ", then pieces of %" PRId64 " (0: all at once)", alg_name[c.v[0]], k[c.kind], c.v[1], c.v[2], c.v[3]);
}
void enumerate() {
    bool T = mc::thorough();
    // longest first: the slow algorithms are the 512-bit and Keccak ones
    for (int a = 15; a >= 0; a--) mc::at(1, {a, B32 + 77, 5, 0});
    if (T)
        for (int a = 15; a >= 0; a--) {
            mc::at(1, {a, B29 + 1, 0, 65521});
            mc::at(1, {a, B31 - 208, 0, 65521});
            mc::at(1, {a, B32 - 208, B31 + 9, 0});
            mc::at(2, {a, B32, 0, 0});
            mc::at(2, {a, B31 + 9, 0, 0});
            mc::at(3, {a, B32 + 77, 0, 0});
            mc::at(1, {a, B32 + 77, 0, 65537});
            mc::at(1, {a, B32 + 77, B31 - 3, B31 - 3});
            mc::at(5, {a, B32 + 77, B29 + 1, 0});
            if (a < 12) mc::at(4, {a, B32 + 77, 0, 0});
            if (a < 12) mc::at(6, {a, B32 + 77, 0, 0});
        }
    else {
        mc::at(3, {A_MD5, B32 + 77, 0, 0});
        mc::at(4, {A_SHA1, B31 + 9, 0, 0});
    }
    for (int a = 15; a >= 0; a--) {
        if (T || a < 3 || a == A_SHA512 || a == A_SHA3_256) mc::at(2, {a, B29, 0, 0});
        mc::at(1, {a, B29 - 208, 0, 65521}); // lengths from 2^29 - 208 to 2^29 + 212
        if (T || a < 2) {
            mc::at(2, {a, B29 - 1, 0, 0});
            mc::at(1, {a, B29 + 1, 1, 4096});
            mc::at(5, {a, B29 + 1, B29 - 1, 0});
        }
    }
}
void selfcheck() { hash_selfcheck(); }
