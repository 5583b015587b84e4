// C10: every constructor form of HMACEncoder x key lengths x every sequence of updates up to a depth, with the object
// built in memory filled beforehand, against RFC 2104.
#include "mc.hpp"
#include "phases.hpp"
#include <unordered_map>
#include "api.hpp"
#include "dirty.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
using namespace ref;
using libpgfe::AbstractEncoder;
using libpgfe::HMACEncoder;
using libpgfe::SequentialData;

enum { P0, P1, PB_1, PB, P2B, CS, STR, SD, BASE, NOPS };
static const char *const op_name[NOPS] = {"update(ptr, 0)", "update(ptr, 1)", "update(ptr, block-1)", "update(ptr, block)", "update(ptr, 2 blocks+5)", "update(C string)",
                                          "update(std::string with zero bytes)", "update(SequentialData of block+1)", "base.update(ptr, 9)"};
static const char *const form_name[4] = {"pointer and length", "C string", "std::string", "SequentialData"};
static Bytes piece(int a, int op, int pos) {
    size_t bs = block_size[a];
    size_t n = op == P0 ? 0 : op == P1 ? 1 : op == PB_1 ? bs - 1 : op == PB ? bs : op == P2B ? 2 * bs + 5 : op == CS ? 3 : op == STR ? 5 : op == SD ? bs + 1 : 9;
    Bytes b = pattern(pos % 3, n);
    if (op == CS) for (auto &x : b) if (!x) x = 'x';
    if (op == STR) b[0] = b[3] = 0;
    if (op == SD) b[2] = b[n - 1] = 0;
    return b;
}
static Bytes key_of(int form, int pat, size_t n) {
    Bytes k = pattern(pat, n);
    if (form == 1) for (auto &x : k) if (!x) x = 'k';
    if (form != 1 && n > 2) k[1] = k[n - 1] = 0;
    return k;
}
static std::unordered_map<uint64_t, Bytes> memo;
static const Bytes &want_of(int a, const Bytes &k, const Bytes &d) {
    uint64_t h = mc::fnv(d.data(), d.size(), mc::fnv(k.data(), k.size(), (uint64_t)a));
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, hmac(a, k.data(), k.size(), d.data(), d.size())).first;
    return it->second;
}
static void play(int a, int fill, int form, const Bytes &k, const int *seq, int n) {
    dirty::fill_kind() = fill;
    auto go = [&](HMACEncoder &e) {
        AbstractEncoder &base = e;
        Bytes data;
        std::string how;
        for (int i = 0; i < n; i++) {
            mc::count("transitions")++;
            int op = seq[i];
            how += std::string(op_name[op]) + "; ";
            Bytes p = piece(a, op, i);
            Exact x(p.data(), p.size());
            if (op == CS) {
                Bytes zs = p;
                zs.push_back(0);
                Exact z(zs.data(), zs.size());
                i % 2 ? base.update((const char *)z.p) : e.update((const char *)z.p);
            }
            else if (op == STR) {
                static std::string s; // one place whose contents are replaced
                s.assign((const char *)p.data(), p.size());
                i % 2 ? base.update(s) : e.update(s);
            }
            else if (op == SD) {
                static SequentialData sd;
                sd.assign(p.data(), p.size());
                i % 2 ? base.update(sd) : e.update(sd);
            }
            else if (op == BASE) base.update(x.p, x.n);
            else e.update(x.p, x.n);
            data.insert(data.end(), p.begin(), p.end());
        }
        CHECK(e.digest_size() == digest_size[a] && e.block_size() == block_size[a] && e.algorithm() == api::choice[a],
              "HMACEncoder(%s, %s key of %zu bytes), memory filled with %d: reports algorithm %d, digest size %zu, block size %zu", alg_name[a], form_name[form],
              k.size(), fill, (int)e.algorithm(), e.digest_size(), e.block_size());
        const SequentialData *r = n % 2 ? base.get_digest() : e.get_digest();
        mc::count("executions")++;
        CHECK(r, "HMACEncoder(%s): get_digest returned a null pointer", alg_name[a]);
        const Bytes &want = want_of(a, k, data);
        mc::outcome(r->data(), r->size(), (uint64_t)a);
        CHECK(r->size() == want.size() && !memcmp(r->data(), want.data(), want.size()),
              "HMACEncoder(%s, %s key of %zu bytes), memory filled with %d, %s got %s, want %s", alg_name[a], form_name[form], k.size(), fill, how.c_str(),
              mc::hex(r->data(), r->size()).c_str(), mc::hex(want.data(), want.size()).c_str());
    };
    Bytes ks = k;
    if (form == 1) ks.push_back(0);
    Exact kx(ks.data(), ks.size());
    if (form == 0) {
        dirty::Object<HMACEncoder> e(fill, api::choice[a], (const pgfe_encode_t *)kx.p, k.size());
        memset(kx.p, 0xEE, kx.n); // the caller's key buffer is only needed during construction
        go(*e);
    }
    else if (form == 1) {
        dirty::Object<HMACEncoder> e(fill, api::choice[a], (const char *)kx.p);
        memset(kx.p, 0xEE, kx.n);
        go(*e);
    }
    else if (form == 2) {
        static std::string s;
        s.assign((const char *)k.data(), k.size());
        dirty::Object<HMACEncoder> e(fill, api::choice[a], s);
        s.assign(s.size(), 'z');
        go(*e);
    }
    else {
        static SequentialData s;
        s.assign(k.data(), k.size());
        dirty::Object<HMACEncoder> e(fill, api::choice[a], s);
        s.assign(s.size(), 'z');
        go(*e);
    }
}
static void dfs(int a, int fill, int form, const Bytes &k, int *seq, int n, int depth) {
    mc::count("states")++;
    play(a, fill, form, k, seq, n);
    if (n == depth) return;
    for (int op = 0; op < NOPS; op++) {
        seq[n] = op;
        dfs(a, fill, form, k, seq, n + 1, depth);
    }
}
// One update of every length through every overload, with a key of another length in every form.
static void lengths(const mc::Case &c) { // v = alg, key form, key length, overload, message length
    int a = (int)c.v[0], form = (int)c.v[1], ov = (int)c.v[3];
    Bytes k = key_of(form, 4, (size_t)c.v[2]), d = pattern(5, (size_t)c.v[4]);
    if (ov == 1) for (auto &x : d) if (!x) x = 'x';
    Bytes kz = k, dz = d;
    if (form == 1) kz.push_back(0);
    if (ov == 1) dz.push_back(0);
    Exact kx(kz.data(), kz.size()), dx(dz.data(), dz.size());
    dirty::fill_kind() = 0xA5;
    std::string ks, ds;
    SequentialData kd, dd;
    if (form == 2) ks.assign((const char *)k.data(), k.size());
    if (ov == 2) ds.assign((const char *)d.data(), d.size());
    if (form == 3) kd.assign(k.data(), k.size());
    if (ov == 3) dd.assign(d.data(), d.size());
    auto go = [&](HMACEncoder &e) {
        if (ov == 0) e.update(dx.p, d.size());
        else if (ov == 1) e.update((const char *)dx.p);
        else if (ov == 2) e.update(ds);
        else e.update(dd);
        const SequentialData *r = e.get_digest();
        mc::count("executions")++;
        Bytes want = hmac(a, k.data(), k.size(), d.data(), d.size());
        CHECK(r && r->size() == want.size() && !memcmp(r->data(), want.data(), want.size()), "%s: got %s, want %s", describe(c).c_str(), r ? mc::hex(r->data(), r->size()).c_str() : "null",
              mc::hex(want.data(), want.size()).c_str());
        mc::outcome(r->data(), r->size(), (uint64_t)a);
    };
    if (form == 0) go(*dirty::Object<HMACEncoder>(0xA5, api::choice[a], (const pgfe_encode_t *)kx.p, k.size()));
    else if (form == 1) go(*dirty::Object<HMACEncoder>(0xA5, api::choice[a], (const char *)kx.p));
    else if (form == 2) go(*dirty::Object<HMACEncoder>(0xA5, api::choice[a], ks));
    else go(*dirty::Object<HMACEncoder>(0xA5, api::choice[a], kd));
}
// One key place and one data place, a byte changed between two objects. v = alg, key form, key length
static void reused(int a, int form, size_t kn) {
    Bytes k = key_of(form, 4, kn), d = pattern(5, 9);
    for (auto &x : d) if (!x) x = 1;
    if (form == 1) for (auto &x : k) if (x == 1 || x == 0) x = 'k';
    Exact kx(kn + 1, 0), dx(d.data(), d.size());
    memcpy(kx.p, k.data(), kn);
    std::string ks((const char *)k.data(), kn), ds((const char *)d.data(), d.size());
    SequentialData kd(k.data(), kn), dd(d.data(), d.size());
    dirty::fill_kind() = 0xA5;
    for (size_t i = 0; i < 2 * (kn + d.size()); i++) {
        uint8_t flip = form == 1 ? 1 : (uint8_t)(1 << i / 2 % 8);
        if (i % 2 && i / 2 < kn) k[i / 2] ^= flip, kx.p[i / 2] = k[i / 2], ks[i / 2] = (char)k[i / 2], kd[i / 2] = k[i / 2];
        if (i % 2 && i / 2 >= kn) {
            size_t j = i / 2 - kn;
            d[j] ^= 0x80, dx.p[j] = d[j], ds[j] = (char)d[j], dd[j] = d[j];
        }
        if (form == 1 && memchr(k.data(), 0, kn)) k[i / 2] = 'z', kx.p[i / 2] = 'z';
        auto go = [&](HMACEncoder &e) {
            if (i / 2 % 3 == 0) e.update(dx.p, dx.n);
            else if (i / 2 % 3 == 1) e.update(ds);
            else e.update(dd);
            const SequentialData *r = e.get_digest();
            mc::count("executions")++;
            Bytes want = hmac(a, k.data(), kn, d.data(), d.size());
            mc::outcome(want.data(), want.size(), (uint64_t)a);
            CHECK(r && r->size() == want.size() && !memcmp(r->data(), want.data(), want.size()), "HMACEncoder(%s, %s key of %zu bytes), key and data from places used before (change %zu): got %s, want %s", alg_name[a],
                  form_name[form], kn, i, r ? mc::hex(r->data(), r->size()).c_str() : "null", mc::hex(want.data(), want.size()).c_str());
        };
        if (form == 0) go(*dirty::Object<HMACEncoder>(0xA5, api::choice[a], (const pgfe_encode_t *)kx.p, kn));
        else if (form == 1) go(*dirty::Object<HMACEncoder>(0xA5, api::choice[a], (const char *)kx.p));
        else if (form == 2) go(*dirty::Object<HMACEncoder>(0xA5, api::choice[a], ks));
        else go(*dirty::Object<HMACEncoder>(0xA5, api::choice[a], kd));
    }
}
std::string describe(const mc::Case &);
// kind 4: v = alg, count: one object, count updates of one byte
static void longrun(int a, uint64_t count) {
    Bytes k = pattern(4, 20), m = pattern(5, (size_t)count);
    HMACEncoder e(api::choice[a], k.data(), k.size());
    for (uint64_t i = 0; i < count; i++) {
        e.update(&m[i], 1);
        mc::count("transitions")++;
    }
    const SequentialData *r = e.get_digest();
    mc::count("executions")++;
    Bytes want = hmac(a, k.data(), k.size(), m.data(), m.size());
    mc::outcome(want.data(), want.size(), (uint64_t)a);
    CHECK(r && r->size() == want.size() && !memcmp(r->data(), want.data(), want.size()), "HMACEncoder(%s), %" PRIu64 " updates of one byte: got %s, want %s", alg_name[a], count,
          r ? mc::hex(r->data(), r->size()).c_str() : "null", mc::hex(want.data(), want.size()).c_str());
}
// kind 6: v = alg, large, small, times: updates of one object
static void phased(const mc::Case &c) {
    int a = (int)c.v[0];
    Bytes k = pattern(4, 20), m = pattern(5, 30000), all;
    for (int64_t mid : phases::MID) {
        HMACEncoder e(api::choice[a], k.data(), k.size());
        all.clear();
        auto up = [&](int64_t n) {
            e.update(m.data(), (size_t)n);
            all.insert(all.end(), m.begin(), m.begin() + n);
            mc::count("transitions")++;
        };
        up(c.v[1]);
        for (int64_t i = 0; i < c.v[3]; i++) up(c.v[2]);
        up(mid), up(c.v[2]), up(mid);
        const SequentialData *r = e.get_digest();
        mc::count("executions")++;
        Bytes want = hmac(a, k.data(), k.size(), all.data(), all.size());
        CHECK(r && r->size() == want.size() && !memcmp(r->data(), want.data(), want.size()), "%s (%" PRId64 "): got %s, want %s", describe(c).c_str(), mid, r ? mc::hex(r->data(), r->size()).c_str() : "null",
              mc::hex(want.data(), want.size()).c_str());
    }
}
// kind 5: v = alg, algorithm of another object, key length, bytes before, bytes after: an object moved between two updates,
// into a new one and over the other
template <class E> static void moved(int a, int other, size_t kn, size_t before, size_t after) {
    if constexpr (std::is_move_constructible<E>::value) {
        Bytes k = pattern(4, kn), k2 = pattern(5, 33), m = pattern(0, before + after);
        auto right = [&](E &e, const char *how) {
            e.update(m.data() + before, after);
            const SequentialData *r = e.get_digest();
            mc::count("executions")++;
            mc::count("transitions") += 3;
            Bytes want = hmac(a, k.data(), kn, m.data(), m.size());
            mc::outcome(want.data(), want.size(), (uint64_t)a);
            CHECK(r && r->size() == want.size() && !memcmp(r->data(), want.data(), want.size()) && e.digest_size() == want.size() && e.algorithm() == api::choice[a],
                  "HMACEncoder(%s, key of %zu bytes) with %zu bytes, %s, then %zu bytes: got %s, want %s", alg_name[a], kn, before, how, after, r ? mc::hex(r->data(), r->size()).c_str() : "null",
                  mc::hex(want.data(), want.size()).c_str());
        };
        for (int used = 0; used < 2; used++) { // the object moved to has given a digest before, or not
            std::unique_ptr<E> e(new E(api::choice[a], k.data(), kn));
            e->update(m.data(), before);
            E f(std::move(*e));
            e.reset();
            right(f, "moved into a new object");
            if constexpr (std::is_move_assignable<E>::value) {
                E g(api::choice[other], k2.data(), k2.size());
                g.update(m.data(), before);
                if (used) g.get_digest();
                std::unique_ptr<E> h(new E(api::choice[a], k.data(), kn));
                h->update(m.data(), before);
                g = std::move(*h);
                h.reset();
                right(g, "moved over another object");
            }
        }
    }
}
// v = alg, fill, form, key length, key pattern, depth
void run_case(const mc::Case &c) {
    memo.clear();
    if (c.kind == 2) return lengths(c);
    if (c.kind == 3) return reused((int)c.v[0], (int)c.v[1], (size_t)c.v[2]);
    if (c.kind == 5) return moved<HMACEncoder>((int)c.v[0], (int)c.v[1], (size_t)c.v[2], (size_t)c.v[3], (size_t)c.v[4]);
    if (c.kind == 6) return phased(c);
    if (c.kind == 4) return longrun((int)c.v[0], (uint64_t)c.v[1]);
    int seq[16];
    dfs((int)c.v[0], (int)c.v[1], (int)c.v[2], key_of((int)c.v[2], (int)c.v[4], (size_t)c.v[3]), seq, 0, (int)c.v[5]);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 5) return mc::strf("HMACEncoder(%s, key of %" PRId64 " bytes) moved after %" PRId64 " bytes, also over one of %s", alg_name[c.v[0]], c.v[2], c.v[3], alg_name[c.v[1]]);
    if (c.kind == 6) return phases::text("updates", c.v[1], c.v[2], c.v[3]) + mc::strf(", HMACEncoder(%s)", alg_name[c.v[0]]);
    if (c.kind == 4) return mc::strf("HMACEncoder(%s): %" PRId64 " updates of one byte", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 2) return mc::strf("HMACEncoder(%s, %s key of %" PRId64 " bytes), update(%s) of %" PRId64 " bytes", alg_name[c.v[0]], form_name[c.v[1]], c.v[2], form_name[c.v[3]], c.v[4]);
    if (c.kind == 3) return mc::strf("HMACEncoder(%s, %s key of %" PRId64 " bytes): one key place, one data place, each byte changed in turn", alg_name[c.v[0]], form_name[c.v[1]], c.v[2]);
    return mc::strf("HMACEncoder(%s, %s key of %" PRId64 " bytes, pattern %" PRId64 "), memory filled with %" PRId64 ": every sequence of up to %" PRId64 " updates", alg_name[c.v[0]], form_name[c.v[2]],
                    c.v[3], c.v[4], c.v[1], c.v[5]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int a = 11; a >= 0; a--)
        for (int form = 0; form < 4; form++) {
            int64_t bs = (int64_t)block_size[a], ds = (int64_t)digest_size[a];
            for (int64_t kl : {(int64_t)0, (int64_t)1, ds, bs - 1, bs, bs + 1, 2 * bs + 3})
                for (int fill : {0xA5, 0, 1, 256 + a, 0xFF})
                    mc::at(1, {a, fill, form, kl, (int64_t)(form + kl) % 3, fill == 0xA5 ? (T ? 4 : 3) : (T ? 3 : 2)});
            for (int64_t kl : {(int64_t)1, (int64_t)5, (int64_t)20, bs - 1, bs, bs + 1}) mc::at(3, {a, form, kl});
            std::vector<int64_t> ls;
            for (int k = 8; k <= (T ? 21 : 17); k++) for (int d = -1; d <= 1; d++) ls.push_back((1 << k) + d);
            ls.insert(ls.end(), {70000, (1 << 20) + 3});
            if (T || a == A_MD5) ls.push_back((1 << 24) + 1);
            for (int ov = 0; ov < 4; ov++) {
                for (int64_t n : ls) {
                    mc::at(2, {a, form, n, ov, 20});
                    mc::at(2, {a, form, 33, ov, n});
                }
                for (int64_t n = 0; n <= 3 * bs; n++) mc::at(2, {a, form, (n * 7) % (2 * bs), ov, n});
            }
            for (int64_t kl = 0; kl <= 3 * bs + 2; kl++) mc::at(1, {a, 0xA5, form, kl, 4, 1}); // every key length
        }
    mc::offsets([&] {
        for (int a = 0; a < 12; a++)
            for (int64_t n = 1; n <= (T ? 300 : 40); n += T || n < 9 ? 1 : 5)
                for (int ov = 0; ov < 4; ov++) {
                    mc::at(2, {a, (n + ov) % 4, n, ov, 20});
                    mc::at(2, {a, (n + ov) % 4, (n * 7) % 150, ov, n});
                }
    });
    for (int a = 0; a < 12; a++)
        for (int64_t n : {128, 255, 256, 257, 1024, 32768, 65535, 65536, 65537, 66000}) mc::at(4, {a, n});
    if (T) for (int a = 0; a < 12; a++) mc::at(4, {a, (1 << 24) + 3});
    for (int a = 0; a < 12; a++) phases::each(T, a % 5 ? 10 : 300, [&](int64_t l, int64_t s, int64_t n) { mc::at(6, {a, l, s, n}); });
    for (int a = 0; a < 12; a++)
        for (int b = 0; b < 12; b++)
            for (int64_t kl : {(int64_t)3, (int64_t)block_size[a] + 1})
                for (int64_t n : {(int64_t)0, (int64_t)5, (int64_t)block_size[a], 2 * (int64_t)block_size[a] + 7})
                    for (int64_t m : {0, 9, 300}) mc::at(5, {a, b, kl, n, m});
}
void selfcheck() {
    hash_selfcheck();
    for (int a = 0; a < 12; a++)
        for (int k = 0; k < 300; k += 29) {
            Bytes kk = pattern(0, (size_t)k), mm = pattern(0, (size_t)k * 2), d = hmac(a, kk.data(), kk.size(), mm.data(), mm.size());
            printf("REF hmac %s %d %d %s\n", alg_name[a], k, k * 2, mc::hex(d.data(), d.size(), 99).c_str());
        }
}
