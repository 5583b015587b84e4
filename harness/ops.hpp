// Programs that together use every public operation of the library, as sequences of steps of one library call each, with
// the output the reference models predict. Used by the checks whose property speaks of every operation.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "api.hpp"
#include "baseapi.hpp"
#include "clock.hpp"
#include "dirty.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.h"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#ifdef OPS_GUARD
#include <sys/mman.h>
#endif
#include "ref/base.hpp"
#include "ref/blowfish.hpp"

#ifdef TSRT
#include "tsrt.hpp"
#endif
namespace ops {
using namespace ref;
using namespace libpgfe;
typedef const pgfe_encode_t *U8;

typedef std::string Out;
typedef std::function<void(Out &)> Step;

inline int &fill() { // what contexts, objects and output buffers hold beforehand
    static int f = 0xA5;
    return f;
}
inline void (*&before_call())() {
    static void (*f)() = nullptr;
    return f;
}
#ifdef TSRT
#define in_lib tsrt_in_lib // the thread model checker looks at it
#else
inline thread_local int in_lib = 0;
#endif
struct Scope {
    Scope() {
        if (before_call()) before_call()();
        in_lib++;
    }
    ~Scope() { in_lib--; }
};
#define LIB(...) ([&]() -> decltype(auto) { ops::Scope scope_; return __VA_ARGS__; }())

template <class T> struct Holder {
    void *mem = nullptr;
    T *p = nullptr;
    template <class... A> void make(A &&...a) {
        if (!mem) mem = aligned_alloc(alignof(T) < 16 ? 16 : alignof(T), (sizeof(T) + 15) & ~(size_t)15);
        dirty::fill(mem, sizeof(T), fill());
        Scope s;
        p = new (mem) T(static_cast<A &&>(a)...);
    }
    void kill() {
        if (p) {
            T *q = p;
            p = nullptr;
            Scope s;
            q->~T();
        }
        free(mem);
        mem = nullptr;
    }
    T *operator->() { return p; }
    T &operator*() { return *p; }
};

#ifndef OPS_GUARD
typedef Exact InBuf;
typedef Exact OutBuf;
#else
// Buffers that end (or begin) at the edge of a page nobody may touch; inputs are read-only besides.
inline int &guard_side() { // 1: a page before, 0: a page after
    static int s = 0;
    return s;
}
struct Guarded {
    uint8_t *base, *p;
    size_t n, len;
    explicit Guarded(size_t n_, size_t align = 1) : n(n_) {
        size_t pg = 4096, body = (n + align - 1) / align * align, pages = (body + pg - 1) / pg;
        len = (pages + 2) * pg;
        base = (uint8_t *)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) abort();
        if (pages) mprotect(base + pg, pages * pg, PROT_READ | PROT_WRITE);
        p = guard_side() ? base + pg : base + pg + pages * pg - body;
    }
    ~Guarded() { munmap(base, len); }
    Guarded(const Guarded &) = delete;
};
struct InBuf : Guarded {
    InBuf(const void *s, size_t n_) : Guarded(n_) {
        if (n) memcpy(p, s, n);
        if (n) mprotect(base + 4096, len - 8192, PROT_READ);
    }
};
typedef Guarded OutBuf;
#endif

struct Rec {
    bool ref;
    int var;   // which data
    int tweak; // 1-3: data of equal length that differs in the last, first or middle byte; 4: the same data, other counters
    std::vector<Step> steps;
    Out want;
    std::vector<std::pair<InBuf *, Bytes>> consts;
    std::vector<std::pair<std::string *, std::string>> strings;
    std::vector<std::pair<SequentialData *, Bytes>> seqs;
    std::vector<OutBuf *> outs;
    std::vector<std::function<void()>> cleanup;
    Rec(int v, bool r) : ref(r), var(v & 15), tweak(v >> 4) {}
    Rec(const Rec &) = delete;
    ~Rec() {
        for (auto it = cleanup.rbegin(); it != cleanup.rend(); ++it) (*it)();
        for (auto &c : consts) delete c.first;
        for (auto *o : outs) delete o;
    }
    template <class W> void expect(W w) {
        if (ref) {
            want += w();
            want += '|';
        }
    }
    template <class F, class W> void step(F f, W w) {
        steps.push_back([f](Out &o) mutable {
            size_t n = o.size();
            try {
                f(o);
            }
            catch (...) {
                o.resize(n);
                throw;
            }
            o += '|';
        });
        expect(w);
    }
    template <class F> void step(F f) { step(f, [] { return std::string(); }); }
    U8 in(const Bytes &b) {
        consts.push_back({new InBuf(b.data(), b.size()), b});
        return consts.back().first->p;
    }
    const char *cs(const std::string &s) { return (const char *)in(Bytes(s.c_str(), s.c_str() + s.size() + 1)); }
    uint8_t *out(size_t n) {
        outs.push_back(new OutBuf(n));
        dirty::fill(outs.back()->p, n, fill());
        return outs.back()->p;
    }
    template <class T> Holder<T> *hold() {
        auto *h = new Holder<T>;
        cleanup.push_back([h] {
            h->kill();
            delete h;
        });
        return h;
    }
    void *raw(size_t n) {
#ifdef OPS_GUARD
        outs.push_back(new OutBuf(n, 8));
        dirty::fill(outs.back()->p, n, fill());
        return outs.back()->p;
#endif
        auto *c = new api::Ctx(n, fill() >= 256 && fill() < 1000 ? fill() - 256 : fill());
        cleanup.push_back([c] { delete c; });
        return c->p;
    }
    template <class T> T *keep(T *t) {
        cleanup.push_back([t] { delete t; });
        return t;
    }
    std::string *keep(std::string *t) {
        strings.push_back({t, *t});
        cleanup.push_back([t] { delete t; });
        return t;
    }
    SequentialData *keep(SequentialData *t) {
        seqs.push_back({t, Bytes(t->data(), t->data() + t->size())});
        cleanup.push_back([t] { delete t; });
        return t;
    }
    // Const inputs must come out as they went in.
    std::string changed_input() const {
        for (size_t i = 0; i < consts.size(); i++)
            if (consts[i].second.size() && memcmp(consts[i].first->p, consts[i].second.data(), consts[i].second.size()))
                return mc::strf("const input %zu was modified: %s, was %s", i, mc::hex(consts[i].first->p, consts[i].second.size()).c_str(), mc::hex(consts[i].second.data(), consts[i].second.size()).c_str());
        for (auto &x : strings) if (*x.first != x.second) return "a std::string input was modified";
        for (auto &x : seqs) if (x.first->size() != x.second.size() || memcmp(x.first->data(), x.second.data(), x.second.size())) return "a SequentialData input was modified";
        return "";
    }
};
struct Prog {
    std::string name;
    std::function<void(Rec &)> build;
};
inline std::string S(const Bytes &b) { return std::string((const char *)b.data(), b.size()); }
inline std::string S(const void *p, size_t n) { return std::string((const char *)p, n); }
inline std::string S(const SequentialData &d) { return std::string((const char *)d.data(), d.size()); }
inline Bytes data(const Rec &r, int which, size_t n) {
    Bytes b = pattern(4 + r.var * 8 + which, n);
    if (n && r.tweak >= 1 && r.tweak <= 3) b[r.tweak == 1 ? n - 1 : r.tweak == 2 ? 0 : n / 2] ^= 0x11;
    return b;
}
inline Bytes nonul(Bytes b) {
    for (auto &x : b) if (!x) x = 'q';
    return b;
}
inline Bytes cat(const Bytes &a, const Bytes &b) {
    Bytes c = a;
    c.insert(c.end(), b.begin(), b.end());
    return c;
}
inline std::string dig(int a, const Bytes &m, size_t bits) { return S(digest(a, m.data(), m.size(), bits)); }
inline std::string hexs(const Bytes &b) {
    static const char d[] = "0123456789abcdef";
    std::string s;
    for (uint8_t x : b) s += d[x >> 4], s += d[x & 15];
    return s;
}
inline std::string padnum(int64_t v, int d) {
    char b[32];
    snprintf(b, sizeof b, "%0*" PRId64, d, v);
    return b;
}
// MD5 codes whose window leaves the digest have no fixed value: choose a counter for which it does not.
inline uint64_t safe_counter(int a, const Bytes &k, uint64_t c) {
    while (hotp(a, k.data(), k.size(), c, 6) < 0) c++;
    return c;
}

inline void hash_ctx(Rec &r, int a) {
    size_t bs = block_size[a], ds = digest_size[a];
    auto *h = &api::hash[a];
    void *c = r.raw(h->ctx_size);
    Bytes b1 = data(r, 0, bs - 3 + r.var * 5), b2 = data(r, 1, 2 * bs + 9 + r.var);
    U8 p1 = r.in(b1), p2 = r.in(b2);
    uint8_t *o = r.out(ds);
    r.step([=](Out &) { LIB(h->init(c)); });
    r.step([=](Out &) { LIB(h->update(c, p1, b1.size())); });
    r.step([=](Out &) { LIB(h->update(c, p2, b2.size())); });
    r.step([=](Out &s) { LIB(h->digest(c, o, ds * 8)); s += S(o, ds); }, [=] { return dig(a, cat(b1, b2), is_shake(a) ? ds * 8 : 0); });
}
inline void shake_squeeze(Rec &r, int a) {
    auto *h = &api::hash[a];
    void *c = r.raw(h->ctx_size);
    Bytes b = data(r, 0, 33 + (size_t)r.var);
    U8 p = r.in(b);
    uint8_t *o1 = r.out(10), *o2 = r.out(200), *o3 = r.out(4);
    Bytes w = r.ref ? digest(a, b.data(), b.size(), 214 * 8 - 3) : Bytes();
    r.step([=](Out &) { LIB(h->init(c)); LIB(h->update(c, p, b.size())); });
    r.step([=](Out &s) { LIB(h->digest(c, o1, 80)); s += S(o1, 10); }, [=] { return S(w.data(), 10); });
    r.step([=](Out &s) { LIB(h->digest(c, o2, 1600)); s += S(o2, 200); }, [=] { return S(w.data() + 10, 200); });
    r.step([=](Out &s) { LIB(h->digest(c, o3, 29)); s += S(o3, 4); }, [=] { return S(w.data() + 210, 4); });
}
inline void hash_oneshot(Rec &r, int a) {
    size_t bs = block_size[a], ds = digest_size[a], bits = is_shake(a) ? ds * 8 : 0;
    auto *h = &api::hash[a];
    Bytes b1 = data(r, 0, 2 * bs + 5 + r.var), b2 = nonul(data(r, 1, bs - 9 + r.var));
    U8 p1 = r.in(b1);
    const char *p2 = r.cs(S(b2));
    uint8_t *o1 = r.out(ds), *o2 = r.out(ds), *o3 = r.out(ds);
    r.step([=](Out &s) { LIB(h->encode(p1, b1.size(), o1, ds * 8)); s += S(o1, ds); }, [=] { return dig(a, b1, bits); });
    r.step([=](Out &s) { LIB(h->encode_default((U8)p2, o2, ds * 8)); s += S(o2, ds); }, [=] { return dig(a, b2, bits); });
    r.step([=](Out &s) { LIB(h->encode(p1, 0, o3, ds * 8)); s += S(o3, ds); }, [=] { return dig(a, Bytes(), bits); });
}
inline void hash_file(Rec &r, int a) {
    size_t ds = digest_size[a], bits = is_shake(a) ? ds * 8 : 0;
    auto *h = &api::hash[a];
    Bytes b = data(r, 0, 1100 + (size_t)r.var * 500);
    U8 p = r.in(b);
    uint8_t *o = r.out(ds);
    FILE *f = fmemopen((void *)p, b.size(), "rb");
    r.cleanup.push_back([f] { fclose(f); });
    r.step([=](Out &s) { LIB(h->encode_f(f, o, ds * 8)); s += S(o, ds); }, [=] { return dig(a, b, bits); });
}
inline void hash_multi(Rec &r, int a) {
    size_t ds = digest_size[a], bits = is_shake(a) ? ds * 8 : 0;
    auto *h = &api::hash[a];
    Bytes b1 = data(r, 0, 70 + (size_t)r.var), b2 = data(r, 1, 200);
    U8 p1 = r.in(b1), p2 = r.in(b2);
    uint8_t *o = r.out(ds);
    r.step(
        [=](Out &s) {
            const void *p[3] = {p1, nullptr, p2};
            size_t l[3] = {b1.size(), 7, b2.size()};
            LIB(h->multi(o, ds * 8, 3, p, l));
            s += S(o, ds);
        },
        [=] { return dig(a, cat(b1, b2), bits); });
}
inline void hmac_ctx(Rec &r, int a) {
    size_t bs = block_size[a], ds = digest_size[a];
    auto *h = &api::hmac[a];
    void *c = r.raw(h->ctx_size);
    Bytes k = data(r, 2, r.var % 2 ? bs + 20 : 20), b1 = data(r, 0, bs + 1), b2 = data(r, 1, 30);
    U8 pk = r.in(k), p1 = r.in(b1), p2 = r.in(b2);
    uint8_t *o = r.out(ds);
    r.step([=](Out &) { LIB(h->init(c)); });
    r.step([=](Out &) { LIB(h->set_key(c, pk, k.size())); });
    r.step([=](Out &) { LIB(h->update(c, p1, b1.size())); });
    r.step([=](Out &) { LIB(h->update(c, p2, b2.size())); });
    r.step([=](Out &s) { LIB(h->digest(c, o)); s += S(o, ds); }, [=] { Bytes m = cat(b1, b2); return S(hmac(a, k.data(), k.size(), m.data(), m.size())); });
}
inline void hmac_oneshot(Rec &r, int a) {
    size_t bs = block_size[a], ds = digest_size[a];
    auto *h = &api::hmac[a];
    Bytes k = data(r, 2, r.var % 2 ? 16 : 2 * bs + 1), b = data(r, 0, bs + 70);
    U8 pk = r.in(k), p = r.in(b);
    uint8_t *o = r.out(ds), *o2 = r.out(ds);
    auto w = [=] { return S(hmac(a, k.data(), k.size(), b.data(), b.size())); };
    r.step([=](Out &s) { LIB(h->oneshot(pk, k.size(), p, b.size(), o)); s += S(o, ds); }, w);
}
inline void hash_encoder(Rec &r, int a) {
    size_t bs = block_size[a], ds = digest_size[a];
    auto *e = r.hold<HashEncoder>();
    Bytes b1 = data(r, 0, bs + 11 + r.var), b2 = nonul(data(r, 1, 25)), b3 = data(r, 2, 2 * bs), b4 = data(r, 3, 40);
    U8 p1 = r.in(b1);
    const char *p2 = r.cs(S(b2));
    auto *s3 = r.keep(new std::string(S(b3)));
    auto *s4 = r.keep(new SequentialData(b4.data(), b4.size()));
    r.step([=](Out &) { e->make(api::choice[a]); });
    r.step([=](Out &) { LIB((*e)->update(p1, b1.size())); LIB((*e)->update(p2)); });
    r.step([=](Out &s) { auto *d = LIB((*e)->get_digest(0)); s += S(*d); }, [=] { return dig(a, cat(b1, b2), is_shake(a) ? ds * 8 : 0); });
    r.step([=](Out &) { LIB((*e)->reset()); LIB((*e)->update(*s3)); LIB((*e)->update(*s4)); });
    r.step([=](Out &s) { auto *d = LIB((*e)->get_digest(13 * 8)); s += S(*d); e->kill(); }, [=] { return dig(a, cat(b3, b4), is_shake(a) ? 104 : 0).substr(0, 13); });
}
inline void hmac_encoder(Rec &r, int a) {
    size_t bs = block_size[a];
    auto *e = r.hold<HMACEncoder>();
    Bytes k = data(r, 4, r.var % 2 ? bs + 1 : 9), kz = nonul(k);
    Bytes b1 = data(r, 0, bs + 11 + r.var), b2 = nonul(data(r, 1, 25)), b3 = data(r, 2, 2 * bs), b4 = data(r, 3, 40);
    U8 pk = r.in(k), p1 = r.in(b1);
    const char *pz = r.cs(S(kz)), *p2 = r.cs(S(b2));
    auto *ks = r.keep(new std::string(S(k)));
    auto *kd = r.keep(new SequentialData(k.data(), k.size()));
    auto *s3 = r.keep(new std::string(S(b3)));
    auto *s4 = r.keep(new SequentialData(b4.data(), b4.size()));
    int form = (a + r.var) % 4;
    r.step([=](Out &) {
        if (form == 0) e->make(api::choice[a], pk, k.size());
        else if (form == 1) e->make(api::choice[a], pz);
        else if (form == 2) e->make(api::choice[a], *ks);
        else e->make(api::choice[a], *kd);
    });
    r.step([=](Out &) { LIB((*e)->update(p1, b1.size())); LIB((*e)->update(p2)); });
    r.step([=](Out &) { LIB((*e)->update(*s3)); LIB((*e)->update(*s4)); });
    r.step([=](Out &s) { auto *d = LIB((*e)->get_digest()); s += S(*d); e->kill(); },
           [=] { const Bytes &kk = form == 1 ? kz : k; Bytes m = cat(cat(b1, b2), cat(b3, b4)); return S(hmac(a, kk.data(), kk.size(), m.data(), m.size())); });
}
inline void base_c(Rec &r, int e) {
    Bytes b = data(r, 0, 61 + (size_t)r.var), b2 = data(r, 1, 33);
    std::string text = base_encode(e, b2.data(), b2.size());
    U8 p = r.in(b);
    const char *t = r.cs(text);
    char *o = (char *)r.out(base_encode(e, b.data(), b.size()).size() + 1);
    uint8_t *o2 = r.out(bapi::dec_room(e, 33));
    r.step([=](Out &s) { size_t n = LIB(bapi::enc[e](p, b.size(), o)); s += S(o, n + 1); }, [=] { auto x = base_encode(e, b.data(), b.size()); return std::string(x.c_str(), x.size() + 1); });
    r.step([=](Out &s) { size_t n = LIB(bapi::dec[e](t, o2)); s += S(o2, n); }, [=] { return S(b2); });
}
inline void base_object(Rec &r, int e) {
    size_t big = 150 + (size_t)r.var * 40;
    Bytes b1 = data(r, 0, 20), b2 = data(r, 1, big), b3 = nonul(data(r, 2, 31));
    U8 p1 = r.in(b1);
    const char *c3 = r.cs(S(b3)), *t1 = r.cs(base_encode(e, b1.data(), b1.size())), *t2 = r.cs(base_encode(e, b2.data(), b2.size(), false));
    auto *s2 = r.keep(new std::string(S(b2)));
    auto *o16 = r.hold<Base16>();
    auto *o32 = r.hold<Base32>();
    auto *o64 = r.hold<Base64>();
    auto *st = r.keep(new std::string(t2));
    auto obj = [=]() -> AbstractBaseEncoding & { return e == 0 ? (AbstractBaseEncoding &)**o16 : e < 3 ? (AbstractBaseEncoding &)**o32 : (AbstractBaseEncoding &)**o64; };
    r.step([=](Out &) { e == 0 ? o16->make() : e < 3 ? o32->make(e == 2) : o64->make(e == 4); });
    r.step([=](Out &s) { std::string x = LIB(obj().encode(p1, b1.size())); s += x; }, [=] { return base_encode(e, b1.data(), b1.size()); });
    r.step([=](Out &s) { SequentialData x = LIB(obj().decode(t1)); s += S(x); }, [=] { return S(b1); });
    r.step([=](Out &s) { std::string x = LIB(obj().encode((const std::string &)*s2)); s += x; }, [=] { return base_encode(e, b2.data(), b2.size()); });
    r.step([=](Out &s) { SequentialData x = LIB(obj().decode((const std::string &)*st)); s += S(x); }, [=] { return S(b2); });
    r.step([=](Out &s) { std::string x = LIB(obj().encode(c3)); s += x; e == 0 ? o16->kill() : e < 3 ? o32->kill() : o64->kill(); }, [=] { return base_encode(e, b3.data(), b3.size()); });
}
inline void hotp_c(Rec &r, int a) {
    Bytes k = data(r, 0, 20 + (size_t)r.var * 60);
    U8 p = r.in(k);
    uint64_t c = safe_counter(a, k, 5 + 1000003ull * (uint64_t)r.var + (r.tweak == 4));
    r.step([=](Out &s) { uint64_t v = LIB(pgfe_hotp_generic(api::choice[a], p, k.size(), c, 8)); s += std::to_string(v); }, [=] { return std::to_string(hotp(a, k.data(), k.size(), c, 8)); });
    if (a != A_SHA1) return;
    r.step([=](Out &s) { uint64_t v = LIB(pgfe_hotp(p, k.size(), c, 7)); s += std::to_string(v); }, [=] { return std::to_string(hotp(a, k.data(), k.size(), c, 7)); });
    r.step([=](Out &s) { uint64_t v = LIB(pgfe_hotp_4digits(p, k.size(), c)); s += std::to_string(v); }, [=] { return std::to_string(hotp(a, k.data(), k.size(), c, 4)); });
    r.step([=](Out &s) { uint64_t v = LIB(pgfe_hotp_6digits(p, k.size(), c)); s += std::to_string(v); }, [=] { return std::to_string(hotp(a, k.data(), k.size(), c, 6)); });
    r.step([=](Out &s) { uint64_t v = LIB(pgfe_hotp_8digits(p, k.size(), c)); s += std::to_string(v); }, [=] { return std::to_string(hotp(a, k.data(), k.size(), c, 8)); });
}
static const int64_t NOW = 1700000012; // what the clock says while programs run
inline void totp_c(Rec &r, int a) {
    Bytes k = data(r, 0, 20 + (size_t)r.var * 60);
    while (hotp(a, k.data(), k.size(), (uint64_t)NOW / 30, 6) < 0) k[0]++;
    U8 p = r.in(k);
    auto *d = (pgfe_totp_delta_t *)r.keep(new int32_t(77));
    auto w = [=](int digits, int64_t t0) { return std::to_string(hotp(a, k.data(), k.size(), (uint64_t)(NOW - t0) / 30, digits)) + ":" + std::to_string(30 - (NOW - t0) % 30); };
    auto out = [=](Out &s, uint64_t v) { s += std::to_string(v) + ":" + std::to_string((int64_t)*d); };
    r.step([=](Out &s) { clk::now() = NOW; uint64_t v = LIB(pgfe_totp_generic(api::choice[a], p, k.size(), 8, 30, 0, d)); out(s, v); }, [=] { return w(8, 0); });
    if (a != A_SHA1) return;
    r.step([=](Out &s) { clk::now() = NOW; uint64_t v = LIB(pgfe_totp(p, k.size(), 7, 30, d)); out(s, v); }, [=] { return w(7, 0); });
    r.step([=](Out &s) { clk::now() = NOW; uint64_t v = LIB(pgfe_totp_4digits(p, k.size(), 30, d)); out(s, v); }, [=] { return w(4, 0); });
    r.step([=](Out &s) { clk::now() = NOW; uint64_t v = LIB(pgfe_totp_6digits(p, k.size(), 30, d)); out(s, v); }, [=] { return w(6, 0); });
    r.step([=](Out &s) { clk::now() = NOW; uint64_t v = LIB(pgfe_totp_8digits(p, k.size(), 30, d)); out(s, v); }, [=] { return w(8, 0); });
}
inline void hotp_object(Rec &r, int a) {
    auto *o = r.hold<HOTP>();
    Bytes k = data(r, 0, 20 + (size_t)r.var), k2 = data(r, 1, 35);
    std::string b32 = base_encode(E32, k2.data(), k2.size(), false);
    U8 p = r.in(k);
    auto *sb = r.keep(new std::string(b32));
    uint64_t c1 = safe_counter(a, k, (uint64_t)(r.tweak == 4)), c2 = safe_counter(a, k2, 9 + (uint64_t)r.var + (uint64_t)(r.tweak == 4) * 3);
    r.step([=](Out &) { o->make(api::choice[a]); });
    r.step([=](Out &) { LIB((*o)->set_secret(p, k.size())); if (c1) LIB((*o)->set_counter(c1)); });
    r.step([=](Out &s) { uint64_t v = LIB((*o)->generate()); s += std::to_string(v); }, [=] { return std::to_string(hotp(a, k.data(), k.size(), c1, 6)); });
    r.step([=](Out &) { LIB((*o)->set_secret_from_base32((const std::string &)*sb)); LIB((*o)->set_counter(c2)); });
    r.step([=](Out &s) { std::string v = LIB((*o)->generate_str(8)); s += v; o->kill(); }, [=] { return padnum(hotp(a, k2.data(), k2.size(), c2, 8), 8); });
}
inline void totp_object(Rec &r, int a) {
    auto *o = r.hold<TOTP>();
    Bytes k = data(r, 0, 20 + (size_t)r.var), k2 = nonul(data(r, 1, 35));
    while (hotp(a, k.data(), k.size(), (uint64_t)NOW / 30, 6) < 0) k[0]++;
    while (hotp(a, k2.data(), k2.size(), (uint64_t)(NOW - 7) / 45, 6) < 0) k2[0] = (uint8_t)(k2[0] % 255 + 1);
    U8 p = r.in(k);
    const char *c2 = r.cs(S(k2));
    r.step([=](Out &) { o->make(p, k.size(), 30, api::choice[a]); });
    r.step([=](Out &s) { clk::now() = NOW; uint64_t v = LIB((*o)->generate()); s += std::to_string(v); }, [=] { return std::to_string(hotp(a, k.data(), k.size(), (uint64_t)NOW / 30, 6)); });
    r.step([=](Out &s) { clk::now() = NOW; s += std::to_string((int64_t)LIB((*o)->remaining_time())) + "," + std::to_string((int64_t)LIB((*o)->update_time())); },
           [=] { return std::to_string(30 - NOW % 30) + "," + std::to_string(NOW); });
    r.step([=](Out &) { LIB((*o)->set_secret(c2)); LIB((*o)->set_interval(45)); LIB((*o)->set_initial_time(7)); });
    r.step([=](Out &s) { clk::now() = NOW; std::string v = LIB((*o)->generate_str(8)); s += v; o->kill(); }, [=] { return padnum(hotp(a, k2.data(), k2.size(), (uint64_t)(NOW - 7) / 45, 8), 8); });
}
inline void blowfish_c(Rec &r) {
    Bytes k = data(r, 0, 16 + (size_t)r.var), b = data(r, 1, 27 + (size_t)r.var);
    auto *c = (pgfe_blowfish_ctx *)r.raw(sizeof(pgfe_blowfish_ctx));
    U8 pk = r.in(k), p = r.in(b);
    size_t n = (b.size() + 7) / 8 * 8;
    uint8_t *o = r.out(n), *o2 = r.out(n);
    auto *u = r.keep(new pgfe_fake_uint64_t);
    auto enc = [=] { return ref::Blowfish(k.data(), k.size()).ecb(true, b.data(), b.size()); };
    auto unit = [=](bool e) {
        uint32_t l = 0x01234567, x = 0x89abcdef;
        ref::Blowfish f(k.data(), k.size());
        e ? f.enc(l, x) : f.dec(l, x);
        return std::to_string(l) + "," + std::to_string(x);
    };
    r.step([=](Out &) { LIB(pgfe_blowfish_init(c, pk, k.size())); });
    r.step([=](Out &s) { size_t m = LIB(pgfe_blowfish_encrypt(c, p, b.size(), o)); s += std::to_string(m) + S(o, n); }, [=] { return std::to_string(n) + S(enc()); });
    r.step([=](Out &s) { size_t m = LIB(pgfe_blowfish_decrypt(c, o, n, o2)); s += std::to_string(m) + S(o2, n); }, [=] { Bytes x = b; x.resize(n, 0); return std::to_string(n) + S(x); });
    r.step([=](Out &s) { u->left = 0x01234567, u->right = 0x89abcdef; LIB(pgfe_blowfish_encrypt_unit(c, u)); s += std::to_string(u->left) + "," + std::to_string(u->right); }, [=] { return unit(true); });
    r.step([=](Out &s) { u->left = 0x01234567, u->right = 0x89abcdef; LIB(pgfe_blowfish_decrypt_unit(c, u)); s += std::to_string(u->left) + "," + std::to_string(u->right); }, [=] { return unit(false); });
}
inline void blowfish_object(Rec &r) {
    Bytes k = data(r, 0, 20), b = data(r, 1, 27 + (size_t)r.var), b2 = nonul(data(r, 2, 50));
    auto *o = r.hold<libpgfe::Blowfish>();
    U8 p = r.in(b);
    const char *c2 = r.cs(S(b2));
    auto *ks = r.keep(new std::string(S(k)));
    Bytes x = r.ref || true ? ref::Blowfish(k.data(), k.size()).ecb(true, b.data(), b.size()) : Bytes();
    auto *sx = r.keep(new SequentialData(x.data(), x.size()));
    r.step([=](Out &) { o->make((const std::string &)*ks); });
    r.step([=](Out &s) { SequentialData d = LIB((*o)->encrypt(p, b.size())); s += S(d); }, [=] { return S(x); });
    r.step([=](Out &s) { SequentialData d = LIB((*o)->decrypt((const SequentialData &)*sx)); s += S(d); }, [=] { Bytes y = b; y.resize(x.size(), 0); return S(y); });
    r.step([=](Out &s) { SequentialData d = LIB((*o)->encrypt(c2)); s += S(d); o->kill(); }, [=] { return S(ref::Blowfish(k.data(), k.size()).ecb(true, b2.data(), b2.size())); });
}
inline void hex_c(Rec &r) {
    Bytes b = data(r, 0, 23 + (size_t)r.var * 30);
    std::string h = hexs(b), t = "0x" + h.substr(0, 9) + " g:" + h.substr(9) + "h";
    U8 p = r.in(b);
    const char *c = r.cs(t);
    char *o = (char *)r.out(h.size() + 1), *o2 = (char *)r.out(t.size() + 1), *o4 = (char *)r.out(t.size() + 1);
    uint8_t *o3 = r.out(b.size());
    r.step([=](Out &s) { size_t n = LIB(pgfe_hash_to_hex_string(p, b.size(), o)); s += S(o, n + 1); }, [=] { return S(h.c_str(), h.size() + 1); });
    r.step([=](Out &s) { size_t n = LIB(pgfe_hex_string_to_hash(c, o3)); s += S(o3, n); }, [=] { return S(b); });
    r.step([=](Out &s) { size_t n = LIB(pgfe_hash_string_clean(c, o2)); s += S(o2, n + 1); }, [=] { return S(h.c_str(), h.size() + 1); });
    r.step([=](Out &s) { strcpy(o4, c); size_t n = LIB(pgfe_hash_string_clean_(o4)); s += S(o4, n + 1); }, [=] { return S(h.c_str(), h.size() + 1); });
    r.step([=](Out &s) { size_t n = LIB(pgfe_hash_length(c)); s += std::to_string(n); }, [=] { return std::to_string(b.size()); });
}
inline void seqdata(Rec &r) {
    Bytes core = nonul(data(r, 0, 40 + (size_t)r.var)), b = cat(cat(Bytes(3, 0), core), Bytes(5, 0));
    U8 p = r.in(b);
    auto *o = r.hold<SequentialData>();
    auto *o2 = r.hold<SequentialData>();
    r.step([=](Out &) { o->make(p, b.size()); });
    r.step([=](Out &s) { std::string x = LIB((*o)->hex_str()); s += x; }, [=] { return hexs(b); });
    r.step([=](Out &s) { SequentialData x = LIB((*o)->trim()); s += S(x); SequentialData y = LIB((*o)->trim_left()); s += S(y); }, [=] { return S(core) + S(cat(core, Bytes(5, 0))); });
    r.step([=](Out &s) { o2->make((const SequentialData &)**o); LIB((*o2)->trim_right_()); s += S(**o2); o2->kill(); }, [=] { return S(cat(Bytes(3, 0), core)); });
    r.step([=](Out &s) { LIB((*o)->trim_()); s += S(**o); std::string x = LIB((*o)->to_str()); s += x; o->kill(); }, [=] { return S(core) + S(core); });
}
inline void helpers(Rec &r) {
    Bytes b = data(r, 0, 40 + (size_t)r.var), bz = nonul(b);
    U8 p = r.in(b);
    const char *cz = r.cs(S(bz)), *ch = r.cs(hexs(b));
    auto *s = r.keep(new std::string(S(b)));
    auto *sh = r.keep(new std::string(hexs(b)));
    r.step([=](Out &o) { SequentialData *d = LIB(utils::to_sequential_data(p, b.size())); o += S(*d); delete d; }, [=] { return S(b); });
    r.step([=](Out &o) { SequentialData *d = LIB(utils::to_sequential_data(cz)); o += S(*d); delete d; }, [=] { return S(bz); });
    r.step([=](Out &o) { SequentialData *d = LIB(utils::to_sequential_data(*s)); o += S(*d); delete d; }, [=] { return S(b); });
    r.step([=](Out &o) { SequentialData *d = LIB(utils::sequential_data::from_hex_string(ch)); o += S(*d); delete d; }, [=] { return S(b); });
    r.step([=](Out &o) { SequentialData *d = LIB(utils::sequential_data::from_hex_string(*sh)); o += S(*d); delete d; }, [=] { return S(b); });
}
inline void registry(Rec &r) {
    static const char *const names[6] = {"sha3_384", "RawSHAKE128", "SHA512_256", "md5", "SHA1", "shake256"};
    static const int algs[6] = {A_SHA3_384, A_RAWSHAKE128, A_SHA512_256, A_MD5, A_SHA1, A_SHAKE256};
    int v = r.var % 6;
    const char *n = r.cs(names[v]);
    auto *s = r.keep(new std::string(names[(v + 1) % 6]));
    r.step([=](Out &o) { int x = (int)LIB(_algstr(n)); o += std::to_string(x); }, [=] { return std::to_string((int)api::choice[algs[v]]); });
    r.step([=](Out &o) { int x = (int)LIB(_algstr(*s)); o += std::to_string(x); }, [=] { return std::to_string((int)api::choice[algs[(v + 1) % 6]]); });
    r.step(
        [=](Out &o) {
            bool threw = false;
            try {
                LIB(_algstr("no such algorithm at all"));
            }
            catch (const std::out_of_range &) {
                threw = true;
            }
            o += threw ? "rejected" : "accepted";
        },
        [=] { return std::string("rejected"); });
    r.step([=](Out &o) { o += std::to_string(LIB(pgfe_digest_length.at(api::choice[algs[v]]))) + "," + std::to_string(LIB(pgfe_block_length.at(api::choice[algs[v]]))); },
           [=] { return std::to_string(digest_size[algs[v]]) + "," + std::to_string(block_size[algs[v]]); });
}

inline const std::vector<Prog> &all() {
    static std::vector<Prog> v;
    if (!v.empty()) return v;
    auto each = [&](const char *what, int from, int to, void (*f)(Rec &, int), const char *const *names) {
        for (int a = from; a < to; a++) v.push_back({std::string(what) + " " + names[a], [=](Rec &r) { f(r, a); }});
    };
    each("hash context", 0, 16, hash_ctx, alg_name);
    each("squeezing", 12, 16, shake_squeeze, alg_name);
    each("hash functions", 0, 16, hash_oneshot, alg_name);
    each("hash of a file", 0, 16, hash_file, alg_name);
    each("hash of several buffers", 0, 16, hash_multi, alg_name);
    each("hmac context", 0, 12, hmac_ctx, alg_name);
    each("hmac function", 0, 12, hmac_oneshot, alg_name);
    each("HashEncoder", 0, 16, hash_encoder, alg_name);
    each("HMACEncoder", 0, 12, hmac_encoder, alg_name);
    each("base functions", 0, 5, base_c, enc_name);
    each("base object", 0, 5, base_object, enc_name);
    each("hotp function", 0, 12, hotp_c, alg_name);
    each("totp function", 0, 12, totp_c, alg_name);
    each("HOTP", 0, 12, hotp_object, alg_name);
    each("TOTP", 0, 12, totp_object, alg_name);
    v.push_back({"blowfish functions", blowfish_c});
    v.push_back({"Blowfish", blowfish_object});
    v.push_back({"hex functions", hex_c});
    v.push_back({"SequentialData", seqdata});
    v.push_back({"SequentialData helpers", helpers});
    v.push_back({"registry", registry});
    return v;
}
inline const std::string &want(int prog, int var) {
    static std::map<std::pair<int, int>, std::string> m;
    auto &w = m[{prog, var}];
    if (w.empty()) {
        int f = fill();
        Rec r(var, true);
        all()[(size_t)prog].build(r);
        w = r.want;
        fill() = f;
    }
    return w;
}
inline void check(int prog, int var, const Out &got, const std::string &how) {
    const std::string &w = want(prog, var);
    if (got == w) return;
    size_t i = 0, bar = 0;
    while (i < got.size() && i < w.size() && got[i] == w[i]) i++;
    for (size_t j = 0; j < i; j++) bar += w[j] == '|';
    mc::fail(mc::strf("%s, %s: output differs at byte %zu (about step %zu): got %s want %s", all()[(size_t)prog].name.c_str(), how.c_str(), i, bar, mc::hex(got.data() + (i > 8 ? i - 8 : 0), got.size() - (i > 8 ? i - 8 : 0), 24).c_str(),
                      mc::hex(w.data() + (i > 8 ? i - 8 : 0), w.size() - (i > 8 ? i - 8 : 0), 24).c_str()));
}
} // namespace ops
