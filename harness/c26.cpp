// C26: the registry. Every documented name in every form; every string one edit away from a name, every string of up to
// three characters, and prefixes and extensions are rejected; every table, constant and object agrees for all 16.
#include "mc.hpp"
#include <set>
#include <stdexcept>
#include "api.hpp"
#include "libpgfe/generic.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
using namespace ref;
using namespace libpgfe;

static const char *const canonical[16] = {"MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA512_224", "SHA512_256", "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512",
                                          "RawSHAKE128", "SHAKE128", "RawSHAKE256", "SHAKE256"};
static const std::set<std::string> &names() {
    static std::set<std::string> s;
    if (s.empty()) for (int a = 0; a < 16; a++) s.insert(canonical[a]), s.insert(alg_name[a]);
    return s;
}
static int form_call(int form, const std::string &s) { // the choice, or -1 when rejected
    try {
        if (form == 0) return (int)_algstr(s.c_str());
        if (form == 1) return (int)_algstr(s);
        if (form == 2) return (int)libpgfe::operator"" _pgfe_alg(s.c_str(), s.size());
        return (int)pgfe_option_map.at(s);
    }
    catch (const std::out_of_range &) {
        return -1;
    }
}
static void rejected(const std::string &s) {
    static uint64_t &ex = mc::count("executions");
    if (names().count(s)) return;
    for (int f = 0; f < 4; f++) {
        ex++;
        int r = form_call(f, s);
        CHECK(r == -1, "\"%s\" is no algorithm name, but form %d selects %d", s.c_str(), f, r);
    }
    mc::outcome(s.data(), s.size());
}
// A name followed (or preceded) by zero bytes is no name; the C string forms cannot tell.
static void with_zeros(const std::string &n) {
    for (int k = 1; k <= 3; k++)
        for (const std::string &s : {n + std::string((size_t)k, '\0'), std::string((size_t)k, '\0') + n, n + std::string((size_t)k, '\0') + "x", n + std::string((size_t)k, '\0') + n})
            for (int f : {1, 3}) {
                mc::count("executions")++;
                int r = form_call(f, s);
                CHECK(r == -1, "\"%s\" and %zu more characters after a zero byte, form %d: selects %d", s.c_str(), s.size() - strlen(s.c_str()) - 1, f, r);
            }
}
// Names looked up from one place whose contents change: every pair of names in a row, and a string that is no name.
static void reused(int first) {
    std::vector<std::string> all(names().begin(), names().end());
    char buf[64];
    std::string s;
    s.reserve(64);
    auto choice = [](const std::string &n) {
        for (int a = 0; a < 16; a++) if (n == canonical[a] || n == alg_name[a]) return (int)api::choice[a];
        return -1;
    };
    auto look = [&](const std::string &n) {
        snprintf(buf, sizeof buf, "%s", n.c_str());
        s.assign(n);
        int want = choice(n);
        for (int f = 0; f < 4; f++) {
            mc::count("executions")++;
            int got;
            try {
                got = f == 0 ? (int)_algstr((const char *)buf) : f == 1 ? (int)_algstr(s) : f == 2 ? (int)libpgfe::operator"" _pgfe_alg(buf, n.size()) : (int)pgfe_option_map.at(s);
            }
            catch (const std::out_of_range &) {
                got = -1;
            }
            CHECK(got == want, "name \"%s\" in a place used before, form %d: selects %d, want %d", n.c_str(), f, got, want);
        }
    };
    for (auto &b : all) {
        const std::string &a = all[(size_t)first];
        look(a);
        look(b);
        std::string bad = b;
        bad[bad.size() - 1] = '?';
        look(bad);
        look(a);
    }
    mc::outcome(&first, sizeof first);
}
void run_case(const mc::Case &c) {
    if (c.kind == 4) return reused((int)c.v[0]);
    if (c.kind == 1) {
        int a = (int)c.v[0];
        for (const char *n : {canonical[a], alg_name[a]})
            for (int f = 0; f < 4; f++) {
                mc::count("executions")++;
                int r = form_call(f, n);
                CHECK(r == (int)api::choice[a], "name \"%s\", form %d: selects %d, want %d", n, f, r, (int)api::choice[a]);
            }
        size_t ds = digest_size[a], bs = block_size[a];
        CHECK(pgfe_digest_length.count(api::choice[a]) && pgfe_digest_length.at(api::choice[a]) == ds, "pgfe_digest_length of %s is wrong", alg_name[a]);
        CHECK(pgfe_block_length.count(api::choice[a]) && pgfe_block_length.at(api::choice[a]) == bs, "pgfe_block_length of %s is wrong", alg_name[a]);
        CHECK(api::hash[a].dsize == ds && api::hash[a].bsize == bs, "the header constants of %s are %zu and %zu", alg_name[a], api::hash[a].dsize, api::hash[a].bsize);
        HashEncoder e(api::choice[a]);
        CHECK(e.digest_size() == ds && e.block_size() == bs && e.algorithm() == api::choice[a], "HashEncoder(%s) reports %zu and %zu", alg_name[a], e.digest_size(), e.block_size());
        const SequentialData *d = e.get_digest();
        CHECK(d->size() == ds, "HashEncoder(%s): a default digest has %zu bytes", alg_name[a], d->size());
        Bytes want = digest(a, nullptr, 0, is_shake(a) ? ds * 8 : 0);
        CHECK(!memcmp(d->data(), want.data(), ds), "HashEncoder(%s) computes another algorithm", alg_name[a]);
        // bytes the algorithm really writes
        uint8_t o1[128], o2[128];
        memset(o1, 0x00, sizeof o1);
        memset(o2, 0xFF, sizeof o2);
        api::hash[a].encode((api::In) "abc", 3, o1, ds * 8);
        api::hash[a].encode((api::In) "abc", 3, o2, ds * 8);
        size_t n = 0;
        while (n < sizeof o1 && o1[n] == o2[n]) n++;
        CHECK(n == ds && o1[n] == 0 && o2[n] == 0xFF, "%s writes %zu bytes, its digest size is %zu", alg_name[a], n, ds);
        Bytes abc = digest(a, "abc", 3, is_shake(a) ? ds * 8 : 0);
        CHECK(!memcmp(o1, abc.data(), ds), "%s of \"abc\" is wrong", alg_name[a]);
        mc::outcome(o1, ds);
        if (a < 12) {
            Bytes k1 = pattern(0, bs), k2 = pattern(0, bs + 1);
            for (const Bytes *k : {&k1, &k2}) { // the block size decides which keys are hashed
                HMACEncoder h(api::choice[a], k->data(), k->size());
                CHECK(h.digest_size() == ds && h.block_size() == bs && h.algorithm() == api::choice[a], "HMACEncoder(%s) reports %zu and %zu", alg_name[a], h.digest_size(), h.block_size());
                Bytes w = hmac(a, k->data(), k->size(), "", 0);
                const SequentialData *r = h.get_digest();
                CHECK(r->size() == ds && !memcmp(r->data(), w.data(), ds), "HMACEncoder(%s) with a key of %zu bytes is wrong", alg_name[a], k->size());
                mc::count("executions")++;
            }
        }
        mc::count("executions") += 6;
    }
    else if (c.kind == 2) { // strings one edit away from each name
        int a = (int)c.v[0];
        for (const char *nm : {canonical[a], alg_name[a]}) {
            std::string n = nm;
            with_zeros(n);
            for (size_t i = 0; i <= n.size(); i++) {
                for (int ch = 1; ch < 256; ch++) {
                    rejected(n.substr(0, i) + (char)ch + n.substr(i));
                    if (i < n.size()) rejected(n.substr(0, i) + (char)ch + n.substr(i + 1));
                }
                if (i < n.size()) rejected(n.substr(0, i) + n.substr(i + 1));
                rejected(n.substr(0, i));
                rejected(n.substr(i));
                if (i + 1 < n.size()) {
                    std::string t = n;
                    std::swap(t[i], t[i + 1]);
                    rejected(t);
                }
            }
            // every mixture of upper and lower case
            for (int m = 0; m < 1 << n.size(); m++) {
                std::string t = n;
                for (size_t i = 0; i < t.size(); i++) t[i] = (char)(m >> i & 1 ? toupper((unsigned char)n[i]) : tolower((unsigned char)n[i]));
                rejected(t);
            }
            std::string dash = n;
            for (char &ch : dash) if (ch == '_') ch = '-';
            rejected(dash);
            for (int b = 0; b < 16; b++) rejected(n + canonical[b]);
        }
    }
    else { // every short string
        char s[4] = {(char)c.v[0], 0, 0, 0};
        rejected("");
        rejected(s);
        for (int x = 1; x < 256; x++) {
            s[1] = (char)x;
            s[2] = 0;
            rejected(s);
            for (int y = 33; y < 127; y += (int)c.v[1]) {
                s[2] = (char)y;
                rejected(s);
            }
        }
    }
}
std::string describe(const mc::Case &c) {
    if (c.kind == 1) return mc::strf("registry entry of %s", alg_name[c.v[0]]);
    if (c.kind == 2) return mc::strf("every string one edit or one case mixture away from the names of %s", alg_name[c.v[0]]);
    if (c.kind == 4) return mc::strf("name number %" PRId64 ", then every other from the same place", c.v[0]);
    return mc::strf("every string of up to 3 characters that begins with character %" PRId64, c.v[0]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int n = 0; n < (int)names().size(); n++) mc::at(4, {n});
    for (int a = 0; a < 16; a++) {
        mc::at(1, {a});
        mc::at(2, {a});
    }
    for (int x = 1; x < 256; x++) mc::at(3, {x, T ? 1 : 7});
    // the names and choices of one algorithm never belong to another
    CHECK(pgfe_option_map.size() == 32 && pgfe_digest_length.size() == 16 && pgfe_block_length.size() == 16, "the tables have %zu names, %zu digest sizes, %zu block sizes", pgfe_option_map.size(),
          pgfe_digest_length.size(), pgfe_block_length.size());
}
void selfcheck() { hash_selfcheck(); }
