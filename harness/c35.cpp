// C35: every sequence of operations up to a depth on the objects, contexts and functions of a group, where an argument
// exists only during its call (afterwards it is overwritten, and freed or reused for the next one) and each result is
// kept, overwritten or destroyed at once: arguments are copied and left alone, results last and are the holder's own.
#include <functional>
#include "mc.hpp"
#include "api.hpp"
#include "baseapi.hpp"
#include "clock.hpp"
#include "dirty.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.h"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include "ref/base.hpp"
#include "ref/blowfish.hpp"
using namespace ref;
using namespace libpgfe;
typedef const pgfe_encode_t *U8;

static std::string S(const Bytes &b) { return std::string((const char *)b.data(), b.size()); }
static std::string S(const SequentialData &d) { return std::string((const char *)d.data(), d.size()); }
static std::string hexs(const Bytes &b) {
    std::string s;
    for (uint8_t x : b) s += mc::strf("%02x", x);
    return s;
}
// text with characters in it that decoding passes over
static std::string noisy(std::string s) {
    for (size_t i = s.size() / 8 * 4; i >= 4; i -= 4) s.insert(i, i % 3 ? ":" : "\n");
    return s;
}
enum { FRESH, REUSED };           // arguments and C output buffers
enum { KEEP, SCRIBBLE, DESTROY }; // results returned by value
static const char *const arg_name[2] = {"freed after the call", "overwritten after the call and used again"};
static const char *const res_name[3] = {"kept", "overwritten at once", "destroyed at once"};

// What an execution holds: results with what they must stay.
struct World {
    int am, rm;
    std::string how;
    struct Held {
        std::string what;
        std::function<std::string()> get;
        std::function<void()> drop;
        std::string want;
    };
    std::vector<Held> held;
    std::map<const void *, Held> lent; // a result the object still owns: until it makes another one, or dies
    std::vector<std::function<void()>> last;
    int slot = 0;
    World(int a, int r) : am(a), rm(r) {}
    ~World() {
        for (auto &h : held)
            if (h.drop) h.drop();
        for (auto it = last.rbegin(); it != last.rend(); ++it) (*it)();
    }
    void same(const std::string &got, const std::string &want, const char *what) {
        CHECK(got == want, "arguments %s, results %s: after%s: %s is %s, want %s", arg_name[am], res_name[rm], how.c_str(), what, mc::hex(got.data(), got.size()).c_str(),
              mc::hex(want.data(), want.size()).c_str());
    }
    void look() {
        for (auto &h : held) same(h.get(), h.want, ("the result of an earlier call, " + h.what + ",").c_str());
        for (auto &l : lent) same(l.second.get(), l.second.want, ("the result lent by an earlier call, " + l.second.what + ",").c_str());
        mc::count("results_compared_again") += held.size() + lent.size();
    }
    static uint8_t *arena(int k) {
        static uint8_t *a[8];
        if (!a[k]) a[k] = (uint8_t *)malloc(4096);
        return a[k];
    }
    // f is called with the bytes in a buffer of its own; nothing may have changed them, and then they go away.
    template <class F> void bytes(const Bytes &b, F f) {
        int k = slot++;
        uint8_t *p = am == REUSED ? arena(k) : (uint8_t *)malloc(b.size() ? b.size() : 1);
        if (!b.empty()) memcpy(p, b.data(), b.size());
        f((U8)p);
        bool ok = b.empty() || !memcmp(p, b.data(), b.size());
        for (size_t i = 0; i < b.size(); i++) p[i] = (uint8_t)(0xDD - 7 * i);
        if (am != REUSED) free(p);
        slot--;
        CHECK(ok, "%s: the last call changed its argument", how.c_str());
    }
    template <class F> void cs(const std::string &s, F f) {
        Bytes b(s.begin(), s.end());
        b.push_back(0);
        bytes(b, [&](U8 p) { f((const char *)p); });
    }
    template <class T, class F> void object(const std::string &s, F f) { // a std::string or SequentialData
        static T *kept[4];
        int k = slot++;
        if (!kept[k]) kept[k] = new T, kept[k]->reserve(2048);
        T *x = am == REUSED ? kept[k] : new T;
        x->assign((const typename T::value_type *)s.data(), s.size());
        f(*x);
        bool ok = x->size() == s.size() && (s.empty() || !memcmp(x->data(), s.data(), s.size()));
        for (auto &c : *x) c = (typename T::value_type)(c ^ 0x5A);
        if (am != REUSED) delete x;
        slot--;
        CHECK(ok, "%s: the last call changed its argument", how.c_str());
    }
    template <class F> void str(const std::string &s, F f) { object<std::string>(s, f); }
    template <class F> void sd(const std::string &s, F f) { object<SequentialData>(s, f); }
    // results
    template <class T> void value(T &&v, const std::string &want, const char *what) {
        typedef typename std::decay<T>::type V;
        V *x = new V(static_cast<T &&>(v));
        auto get = [x] { return std::string((const char *)x->data(), x->size()); };
        same(get(), want, what);
        mc::outcome(want.data(), want.size());
        if (rm == DESTROY) {
            delete x;
            return;
        }
        std::string w = want;
        if (rm == SCRIBBLE) {
            for (auto &c : *x) c = (typename V::value_type)(c ^ 0x33);
            x->append(30, (typename V::value_type)'~');
            w = get();
        }
        held.push_back({what, get, [x] { delete x; }, w});
    }
    void owned(SequentialData *x, const std::string &want, const char *what) { // the caller's to delete
        CHECK(x, "%s: %s is a null pointer", how.c_str(), what);
        auto get = [x] { return S(*x); };
        same(get(), want, what);
        if (rm == DESTROY) {
            delete x;
            return;
        }
        std::string w = want;
        if (rm == SCRIBBLE) {
            x->assign(77, (pgfe_encode_t)'!');
            w = get();
        }
        held.push_back({what, get, [x] { delete x; }, w});
    }
    void borrow(const void *owner, const SequentialData *x, const std::string &want, const char *what) {
        CHECK(x, "%s: %s is a null pointer", how.c_str(), what);
        lent.erase(owner);
        same(S(*x), want, what);
        mc::outcome(want.data(), want.size());
        lent[owner] = {what, [x] { return S(*x); }, {}, want};
    }
    void gone(const void *owner) { lent.erase(owner); }
    // f writes n bytes to a buffer
    template <class F> void out(size_t n, const std::string &want, const char *what, F f) {
        uint8_t *p = am == REUSED ? arena(7) : (uint8_t *)malloc(n ? n : 1);
        memset(p, 0x77, n);
        f(p);
        auto get = [p, n] { return std::string((const char *)p, n); };
        same(get(), want, what);
        mc::outcome(want.data(), want.size());
        if (rm != KEEP) for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(0x99 + 5 * i);
        if (am == REUSED) return;
        if (rm == DESTROY) return free(p);
        held.push_back({what, get, [p] { free(p); }, get()});
    }
    template <class T> T *keep(T *x) {
        last.push_back([x] { delete x; });
        return x;
    }
};
struct Op {
    std::string name;
    std::function<void(World &, int pos)> run;
};
typedef std::vector<Op> Ops;
static Bytes nonul(Bytes b) {
    for (auto &x : b) if (!x) x = 'x';
    return b;
}
static std::map<uint64_t, Bytes> memo;
static const Bytes &dig(int a, const Bytes &m, size_t bits) {
    uint64_t h = mc::fnv(m.data(), m.size(), (uint64_t)a * 1000003 + bits);
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, digest(a, m.data(), m.size(), bits)).first;
    return it->second;
}
static const Bytes &mac(int a, const Bytes &k, const Bytes &m) {
    uint64_t h = mc::fnv(m.data(), m.size(), mc::fnv(k.data(), k.size(), (uint64_t)a + 77));
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, hmac(a, k.data(), k.size(), m.data(), m.size())).first;
    return it->second;
}
static void add(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }

// ---- hashing with one algorithm: a context, an object, one-shot functions
static void hashes(World &w, Ops &o, int a) {
    struct St {
        std::unique_ptr<api::Ctx> c;
        Bytes cd, ed;
        std::unique_ptr<HashEncoder> e;
        bool open = false;
    };
    auto *h = &api::hash[a];
    size_t bs = block_size[a], ds = digest_size[a], bits = is_shake(a) ? ds * 8 : 0;
    St *s = w.keep(new St);
    s->c.reset(new api::Ctx(h->ctx_size));
    s->e.reset(new HashEncoder(api::choice[a]));
    auto begin = [=] {
        if (!s->open) h->init(s->c->p), s->cd.clear(), s->open = true;
    };
    for (size_t n : {(size_t)5, bs, 2 * bs + 3})
        o.push_back({mc::strf("context update of %zu bytes", n), [=](World &v, int i) {
                         begin();
                         Bytes b = pattern(i % 3, n);
                         v.bytes(b, [&](U8 p) { h->update(s->c->p, p, n); });
                         add(s->cd, b);
                     }});
    o.push_back({"context digest", [=](World &v, int) {
                     begin();
                     v.out(ds, S(dig(a, s->cd, bits)), "a context's digest", [&](uint8_t *p) { h->digest(s->c->p, p, ds * 8); });
                     s->open = false;
                 }});
    for (size_t n : {(size_t)7, bs + 1}) {
        o.push_back({mc::strf("object update(ptr, %zu)", n), [=](World &v, int i) { Bytes b = pattern((i + 1) % 3, n); v.bytes(b, [&](U8 p) { s->e->update(p, n); }); add(s->ed, b); }});
        o.push_back({mc::strf("object update(C string of %zu)", n), [=](World &v, int i) { Bytes b = nonul(pattern(i % 3, n)); v.cs(S(b), [&](const char *p) { s->e->update(p); }); add(s->ed, b); }});
        o.push_back({mc::strf("object update(std::string of %zu)", n), [=](World &v, int i) { Bytes b = pattern((i + 2) % 3, n); v.str(S(b), [&](std::string &x) { s->e->update(x); }); add(s->ed, b); }});
        o.push_back({mc::strf("object update(SequentialData of %zu)", n), [=](World &v, int i) { Bytes b = pattern(i % 3, n); v.sd(S(b), [&](SequentialData &x) { s->e->update(x); }); add(s->ed, b); }});
    }
    // After a digest the object starts over: what happens to it without a reset is not promised here.
    auto fin = [=](World &v, size_t len) {
        std::string want = S(dig(a, s->ed, is_shake(a) ? (len ? len * 8 : ds * 8) : 0));
        if (!is_shake(a) && len && len < want.size()) want.resize(len);
        v.gone(s->e.get());
        v.borrow(s->e.get(), s->e->get_digest(len * 8), want, "get_digest");
    };
    o.push_back({"get_digest(); reset()", [=](World &v, int) { fin(v, 0); s->e->reset(); s->ed.clear(); v.look(); }});
    o.push_back({"get_digest(72); reset()", [=](World &v, int) { fin(v, 9); s->e->reset(); s->ed.clear(); v.look(); }});
    o.push_back({"reset()", [=](World &, int) { s->e->reset(); s->ed.clear(); }});
    o.push_back({"a new object", [=](World &v, int) { v.gone(s->e.get()); s->e.reset(); s->e.reset(new HashEncoder(api::choice[a])); s->ed.clear(); }});
    o.push_back({"one-shot", [=](World &v, int i) {
                     Bytes b = pattern(i % 3, bs + 9);
                     v.bytes(b, [&](U8 p) { v.out(ds, S(dig(a, b, bits)), "a one-shot digest", [&](uint8_t *q) { h->encode(p, b.size(), q, ds * 8); }); });
                 }});
    o.push_back({"multiple", [=](World &v, int i) {
                     Bytes b = pattern(i % 3, bs), c = pattern((i + 1) % 3, 5), m = b;
                     add(m, c);
                     v.bytes(b, [&](U8 p) { v.bytes(c, [&](U8 q) {
                         const void *ps[2] = {p, q};
                         size_t ls[2] = {b.size(), c.size()};
                         v.out(ds, S(dig(a, m, bits)), "a digest of several buffers", [&](uint8_t *r) { h->multi(r, ds * 8, 2, ps, ls); });
                     }); });
                 }});
}
// ---- keyed things with one algorithm
static void keyed(World &w, Ops &o, int a) {
    struct St {
        std::unique_ptr<api::Ctx> c;
        Bytes ck, cd, ek, ed;
        std::unique_ptr<HMACEncoder> e;
        bool open = false, done = false;
    };
    auto *h = &api::hmac[a];
    size_t bs = block_size[a], ds = digest_size[a];
    St *s = w.keep(new St);
    s->c.reset(new api::Ctx(h->ctx_size));
    for (size_t n : {(size_t)20, bs, bs + 9})
        o.push_back({mc::strf("context init, set_key of %zu bytes", n), [=](World &v, int i) {
                         Bytes k = pattern((i + 1) % 3, n);
                         h->init(s->c->p);
                         v.bytes(k, [&](U8 p) { h->set_key(s->c->p, p, n); });
                         s->ck = k, s->cd.clear(), s->open = true;
                     }});
    for (size_t n : {(size_t)5, bs + 1})
        o.push_back({mc::strf("context update of %zu bytes", n), [=](World &v, int i) {
                         if (!s->open) return;
                         Bytes b = pattern(i % 3, n);
                         v.bytes(b, [&](U8 p) { h->update(s->c->p, p, n); });
                         add(s->cd, b);
                     }});
    o.push_back({"context digest", [=](World &v, int) {
                     if (!s->open) return;
                     v.out(ds, S(mac(a, s->ck, s->cd)), "a context's digest", [&](uint8_t *p) { h->digest(s->c->p, p); });
                     s->open = false;
                 }});
    for (int form = 0; form < 4; form++)
        o.push_back({mc::strf("a new object with its key as %s", form == 0 ? "pointer and length" : form == 1 ? "C string" : form == 2 ? "std::string" : "SequentialData"), [=](World &v, int i) {
                         if (s->e) v.gone(s->e.get());
                         s->e.reset();
                         Bytes k = pattern((i + 2) % 3, i % 2 ? bs + 3 : 9);
                         if (form == 1) k = nonul(k);
                         auto A = api::choice[a];
                         if (form == 0) v.bytes(k, [&](U8 p) { s->e.reset(new HMACEncoder(A, p, k.size())); });
                         else if (form == 1) v.cs(S(k), [&](const char *p) { s->e.reset(new HMACEncoder(A, p)); });
                         else if (form == 2) v.str(S(k), [&](std::string &x) { s->e.reset(new HMACEncoder(A, x)); });
                         else v.sd(S(k), [&](SequentialData &x) { s->e.reset(new HMACEncoder(A, x)); });
                         s->ek = k, s->ed.clear(), s->done = false;
                     }});
    auto upd = [&](const char *name, std::function<void(World &, const Bytes &)> f, bool z) {
        o.push_back({name, [=](World &v, int i) {
                         if (!s->e || s->done) return;
                         Bytes b = pattern(i % 3, i % 2 ? 6 : bs + 2);
                         if (z) b = nonul(b);
                         f(v, b);
                         add(s->ed, b);
                     }});
    };
    upd("object update(ptr)", [=](World &v, const Bytes &b) { v.bytes(b, [&](U8 p) { s->e->update(p, b.size()); }); }, false);
    upd("object update(C string)", [=](World &v, const Bytes &b) { v.cs(S(b), [&](const char *p) { s->e->update(p); }); }, true);
    upd("object update(std::string)", [=](World &v, const Bytes &b) { v.str(S(b), [&](std::string &x) { s->e->update(x); }); }, false);
    upd("object update(SequentialData)", [=](World &v, const Bytes &b) { v.sd(S(b), [&](SequentialData &x) { s->e->update(x); }); }, false);
    o.push_back({"object get_digest()", [=](World &v, int) {
                     if (!s->e || s->done) return;
                     v.gone(s->e.get());
                     v.borrow(s->e.get(), s->e->get_digest(), S(mac(a, s->ek, s->ed)), "get_digest");
                     s->done = true;
                 }});
    o.push_back({"one-shot", [=](World &v, int i) {
                     Bytes k = pattern((i + 1) % 3, i % 2 ? 20 : bs + 9), b = pattern(i % 3, 33);
                     v.bytes(k, [&](U8 p) { v.bytes(b, [&](U8 q) { v.out(ds, S(mac(a, k, b)), "a one-shot HMAC", [&](uint8_t *r) { h->oneshot(p, k.size(), q, b.size(), r); }); }); });
                 }});
}
// ---- one-time passwords with one algorithm
static void otps(World &w, Ops &o, int a) {
    static const int64_t NOW = 1700000012;
    struct St {
        std::unique_ptr<HOTP> h;
        std::unique_ptr<TOTP> t;
        Bytes hk, tk;
        uint64_t c = 0;
    };
    St *s = w.keep(new St);
    auto A = api::choice[a];
    s->h.reset(new HOTP(A));
    s->t.reset(new TOTP(30, A));
    auto code = [=](const Bytes &k, uint64_t c) { return hotp(a, k.data(), k.size(), c, 8); };
    auto secret = [=](int i, size_t n, bool z) {
        Bytes k = pattern(i % 3, n);
        if (z) k = nonul(k);
        return k;
    };
    // v: which of the objects
    for (int which = 0; which < 2; which++) {
        const char *nm = which ? "TOTP" : "HOTP";
        auto obj = [=]() -> HOTP & { return which ? (HOTP &)*s->t : *s->h; };
        auto key = [=]() -> Bytes & { return which ? s->tk : s->hk; };
        for (int form = 0; form < 7; form++) {
            static const char *const fn[7] = {"set_secret(ptr)", "set_secret(C string)", "set_secret(std::string)", "set_secret(SequentialData)", "set_secret(C string, Base32)",
                                              "set_secret_from_base32(std::string)", "AbstractOTP::set_secret(std::string)"};
            o.push_back({std::string(nm) + " " + fn[form], [=](World &v, int i) {
                             Bytes k = secret(i + which, form == 6 || i % 2 ? 20 : 70, form == 1);
                             std::string b32 = base_encode(E32, k.data(), k.size());
                             if (form == 0) v.bytes(k, [&](U8 p) { obj().set_secret(p, k.size()); });
                             else if (form == 1) v.cs(S(k), [&](const char *p) { obj().set_secret(p); });
                             else if (form == 2) v.str(S(k), [&](std::string &x) { obj().set_secret((const std::string &)x); });
                             else if (form == 3) v.sd(S(k), [&](SequentialData &x) { obj().set_secret((const SequentialData &)x); });
                             else if (form == 4) v.cs(noisy(b32), [&](const char *p) { obj().set_secret(p, true); });
                             else if (form == 5) v.str(noisy(b32), [&](std::string &x) { obj().set_secret_from_base32((const std::string &)x); });
                             else v.str(S(k), [&](std::string &x) { ((AbstractOTP &)obj()).set_secret((const std::string &)x); });
                             key() = k;
                         }});
        }
        o.push_back({std::string("a new ") + nm, [=](World &v, int i) {
                         Bytes k = secret(i, 33, i % 4 == 1);
                         auto mk = [&](auto &&x) { which ? s->t.reset(new TOTP(x, 30, A)) : s->h.reset(new HOTP(x, A)); };
                         switch (i % 4) {
                         case 0: v.bytes(k, [&](U8 p) { which ? s->t.reset(new TOTP(p, k.size(), 30, A)) : s->h.reset(new HOTP(p, k.size(), A)); }); break;
                         case 1: v.cs(S(k), [&](const char *p) { mk(p); }); break;
                         case 2: v.str(S(k), [&](std::string &x) { mk(x); }); break;
                         default: v.sd(S(k), [&](SequentialData &x) { mk(x); }); break;
                         }
                         key() = k;
                         if (!which) s->c = 0;
                     }});
        o.push_back({std::string(nm) + " generate_str(8)", [=](World &v, int) {
                         clk::now() = NOW;
                         if (key().empty()) return;
                         int64_t c = code(key(), which ? (uint64_t)NOW / 30 : s->c);
                         if (c < 0) return; // the digest of MD5 can be too short
                         v.value(obj().generate_str(8), mc::strf("%08" PRId64, c), "generate_str");
                     }});
    }
    o.push_back({"set_counter", [=](World &, int i) { s->h->set_counter(s->c = 3 + (uint64_t)i); }});
    o.push_back({"pgfe_hotp_generic, pgfe_totp_generic", [=](World &v, int i) {
                     Bytes k = secret(i, 44, false);
                     clk::now() = NOW;
                     int64_t c = code(k, 6), d = code(k, (uint64_t)NOW / 30);
                     v.bytes(k, [&](U8 p) {
                         if (c >= 0) v.same(std::to_string(pgfe_hotp_generic(A, p, k.size(), 6, 8)), std::to_string(c), "pgfe_hotp_generic");
                         pgfe_totp_delta_t left;
                         if (d >= 0) v.same(std::to_string(pgfe_totp_generic(A, p, k.size(), 8, 30, 0, &left)), std::to_string(d), "pgfe_totp_generic");
                     });
                 }});
}
// ---- one codec
static void codec(World &w, Ops &o, int e) {
    struct St {
        std::unique_ptr<AbstractBaseEncoding> c;
    };
    St *s = w.keep(new St);
    s->c = bapi::make(e);
    for (size_t n : {(size_t)11, (size_t)130, (size_t)400}) {
        auto enc = [=](const Bytes &b) { return base_encode(e, b.data(), b.size()); };
        o.push_back({mc::strf("encode(ptr, %zu)", n), [=](World &v, int i) { Bytes b = pattern(i % 3, n); v.bytes(b, [&](U8 p) { v.value(s->c->encode(p, n), enc(b), "encode"); }); }});
        o.push_back({mc::strf("encode(C string of %zu)", n), [=](World &v, int i) { Bytes b = nonul(pattern(i % 3, n)); v.cs(S(b), [&](const char *p) { v.value(s->c->encode(p), enc(b), "encode"); }); }});
        o.push_back({mc::strf("encode(std::string of %zu)", n), [=](World &v, int i) { Bytes b = pattern(i % 3, n); v.str(S(b), [&](std::string &p) { v.value(s->c->encode((const std::string &)p), enc(b), "encode"); }); }});
        o.push_back({mc::strf("encode(SequentialData of %zu)", n), [=](World &v, int i) { Bytes b = pattern(i % 3, n); v.sd(S(b), [&](SequentialData &p) { v.value(s->c->encode((const SequentialData &)p), enc(b), "encode"); }); }});
        o.push_back({mc::strf("decode(C string for %zu)", n), [=](World &v, int i) { Bytes b = pattern(i % 3, n); v.cs(i % 2 ? noisy(enc(b)) : enc(b), [&](const char *p) { v.value(s->c->decode(p), S(b), "decode"); }); }});
        o.push_back({mc::strf("decode(std::string for %zu)", n), [=](World &v, int i) { Bytes b = pattern((i + 1) % 3, n); v.str(i % 2 ? enc(b) : noisy(enc(b)), [&](std::string &p) { v.value(s->c->decode((const std::string &)p), S(b), "decode"); }); }});
    }
    o.push_back({"a new object", [=](World &, int) { s->c.reset(); s->c = bapi::make(e); }});
    o.push_back({"the functions", [=](World &v, int i) {
                     Bytes b = pattern(i % 3, 43);
                     std::string t = base_encode(e, b.data(), b.size());
                     v.bytes(b, [&](U8 p) { v.out(t.size() + 1, std::string(t.c_str(), t.size() + 1), "the encoded text", [&](uint8_t *q) { bapi::enc[e](p, b.size(), (char *)q); }); });
                     v.cs(noisy(t), [&](const char *p) {
                         std::vector<uint8_t> room(bapi::dec_room(e, b.size()));
                         size_t n = bapi::dec[e](p, room.data());
                         v.same(std::string((char *)room.data(), n), S(b), "the decoded bytes");
                     });
                 }});
}
// ---- Blowfish
static void fish(World &w, Ops &o) {
    struct St {
        std::unique_ptr<libpgfe::Blowfish> b;
        std::unique_ptr<pgfe_blowfish_ctx> c;
        Bytes bk, ck;
    };
    St *s = w.keep(new St);
    s->c.reset(new pgfe_blowfish_ctx);
    auto ecb = [](const Bytes &k, bool enc, const Bytes &b) {
        uint64_t h = mc::fnv(b.data(), b.size(), mc::fnv(k.data(), k.size(), enc ? 5 : 6));
        auto it = memo.find(h);
        if (it == memo.end()) {
            static std::map<Bytes, std::unique_ptr<ref::Blowfish>> fs;
            auto &f = fs[k];
            if (!f) f.reset(new ref::Blowfish(k.data(), k.size()));
            it = memo.emplace(h, f->ecb(enc, b.data(), b.size())).first;
        }
        return S(it->second);
    };
    for (int form = 0; form < 4; form++)
        o.push_back({mc::strf("a new object, key form %d", form), [=](World &v, int i) {
                         Bytes k = pattern(i % 3, form % 2 ? 16 : 56);
                         if (form == 1) k = nonul(k);
                         s->b.reset();
                         if (form == 0) v.bytes(k, [&](U8 p) { s->b.reset(new libpgfe::Blowfish(p, k.size())); });
                         else if (form == 1) v.cs(S(k), [&](const char *p) { s->b.reset(new libpgfe::Blowfish(p)); });
                         else if (form == 2) v.str(S(k), [&](std::string &x) { s->b.reset(new libpgfe::Blowfish((const std::string &)x)); });
                         else v.sd(S(k), [&](SequentialData &x) { s->b.reset(new libpgfe::Blowfish((const SequentialData &)x)); });
                         s->bk = k;
                     }});
    for (int e = 1; e >= 0; e--)
        for (int form = 0; form < 4; form++)
            o.push_back({mc::strf("%s, form %d", e ? "encrypt" : "decrypt", form), [=](World &v, int i) {
                             if (!s->b) return;
                             Bytes b = pattern((i + 1) % 3, e ? 21 : 24);
                             if (form == 1) b = nonul(b);
                             std::string want = ecb(s->bk, e, b);
                             auto &B = *s->b;
                             const char *what = e ? "encrypt" : "decrypt";
                             if (form == 0) v.bytes(b, [&](U8 p) { v.value(e ? B.encrypt(p, b.size()) : B.decrypt(p, b.size()), want, what); });
                             else if (form == 1) v.cs(S(b), [&](const char *p) { v.value(e ? B.encrypt(p) : B.decrypt(p), want, what); });
                             else if (form == 2) v.str(S(b), [&](std::string &x) { v.value(e ? B.encrypt((const std::string &)x) : B.decrypt((const std::string &)x), want, what); });
                             else v.sd(S(b), [&](SequentialData &x) { v.value(e ? B.encrypt((const SequentialData &)x) : B.decrypt((const SequentialData &)x), want, what); });
                         }});
    for (size_t n : {(size_t)8, (size_t)56})
        o.push_back({mc::strf("pgfe_blowfish_init with %zu bytes", n), [=](World &v, int i) {
                         Bytes k = pattern((i + 2) % 3, n);
                         v.bytes(k, [&](U8 p) { pgfe_blowfish_init(s->c.get(), p, n); });
                         s->ck = k;
                     }});
    for (int e = 1; e >= 0; e--)
        o.push_back({e ? "pgfe_blowfish_encrypt" : "pgfe_blowfish_decrypt", [=](World &v, int i) {
                         if (s->ck.empty()) return;
                         Bytes b = pattern(i % 3, e ? 19 : 16);
                         size_t n = (b.size() + 7) / 8 * 8;
                         v.bytes(b, [&](U8 p) {
                             v.out(n, ecb(s->ck, e, b), "the output", [&](uint8_t *q) { e ? pgfe_blowfish_encrypt(s->c.get(), p, b.size(), q) : pgfe_blowfish_decrypt(s->c.get(), p, b.size(), q); });
                         });
                     }});
}
// ---- byte sequences and helpers
static void seqs(World &w, Ops &o) {
    struct St {
        std::unique_ptr<SequentialData> d;
        Bytes b;
    };
    St *s = w.keep(new St);
    auto data = [](int i) {
        Bytes b(2, 0);
        add(b, nonul(pattern(i % 3, i % 2 ? 9 : 40)));
        b.insert(b.end(), 3, 0);
        return b;
    };
    for (int form = 0; form < 6; form++)
        o.push_back({mc::strf("a new object, form %d", form), [=](World &v, int i) {
                         Bytes b = data(i + form);
                         if (form == 1) b = nonul(b);
                         s->d.reset();
                         if (form == 0) v.bytes(b, [&](U8 p) { s->d.reset(new SequentialData(p, b.size())); });
                         else if (form == 1) v.cs(S(b), [&](const char *p) { s->d.reset(new SequentialData(p)); });
                         else if (form == 2) v.str(S(b), [&](std::string &x) { s->d.reset(new SequentialData(x)); });
                         else if (form == 3) v.sd(S(b), [&](SequentialData &x) { s->d.reset(new SequentialData((const SequentialData &)x)); });
                         else if (form == 4) v.sd(S(b), [&](SequentialData &x) { s->d.reset(new SequentialData((const SequentialData *)&x)); });
                         else {
                             auto *x = new SequentialData(b.data(), b.size());
                             s->d.reset(new SequentialData(std::move(*x)));
                             delete x;
                         }
                         s->b = b;
                     }});
    auto trimmed = [](Bytes b, bool l, bool r) {
        if (r) while (!b.empty() && !b.back()) b.pop_back();
        if (l) while (!b.empty() && !b[0]) b.erase(b.begin());
        return b;
    };
    auto make = [&](const char *name, std::function<void(World &)> f) {
        o.push_back({name, [=](World &v, int) {
                         if (!s->d) return;
                         f(v);
                         v.same(S(*s->d), S(s->b), "the object");
                     }});
    };
    make("trim()", [=](World &v) { v.value(s->d->trim(), S(trimmed(s->b, true, true)), "trim"); });
    make("trim_left()", [=](World &v) { v.value(s->d->trim_left(), S(trimmed(s->b, true, false)), "trim_left"); });
    make("trim_right()", [=](World &v) { v.value(s->d->trim_right(), S(trimmed(s->b, false, true)), "trim_right"); });
    make("hex_str()", [=](World &v) { v.value(s->d->hex_str(), hexs(s->b), "hex_str"); });
    make("to_str(false)", [=](World &v) { v.value(s->d->to_str(false), S(s->b), "to_str"); });
    make("to_pgfe_seq()", [=](World &v) { size_t n; const pgfe_encode_t *p = s->d->to_pgfe_seq(n); v.same(std::string((const char *)p, n), S(s->b), "to_pgfe_seq"); });
    make("trim_()", [=](World &) { s->d->trim_(); s->b = trimmed(s->b, true, true); });
    for (int form = 0; form < 5; form++)
        o.push_back({mc::strf("helper %d", form), [=](World &v, int i) {
                         Bytes b = data(i + form + 1);
                         if (form == 1) b = nonul(b);
                         if (form == 0) v.bytes(b, [&](U8 p) { v.owned(utils::to_sequential_data(p, b.size()), S(b), "to_sequential_data"); });
                         else if (form == 1) v.cs(S(b), [&](const char *p) { v.owned(utils::to_sequential_data(p), S(b), "to_sequential_data"); });
                         else if (form == 2) v.str(S(b), [&](std::string &x) { v.owned(utils::to_sequential_data(x), S(b), "to_sequential_data"); });
                         else if (form == 3) v.cs(noisy(hexs(b)), [&](const char *p) { v.owned(utils::sequential_data::from_hex_string(p), S(b), "from_hex_string"); });
                         else v.str(noisy(hexs(b)), [&](std::string &x) { v.owned(utils::sequential_data::from_hex_string(x), S(b), "from_hex_string"); });
                     }});
    o.push_back({"the hex functions", [=](World &v, int i) {
                     Bytes b = data(i);
                     std::string t = hexs(b);
                     v.bytes(b, [&](U8 p) { v.out(t.size() + 1, std::string(t.c_str(), t.size() + 1), "the hex text", [&](uint8_t *q) { pgfe_hash_to_hex_string(p, b.size(), (char *)q); }); });
                     v.cs(noisy(t), [&](const char *p) { v.out(b.size(), S(b), "the parsed bytes", [&](uint8_t *q) { pgfe_hex_string_to_hash(p, q); }); });
                     v.cs("0x" + noisy(t), [&](const char *p) { v.out(t.size() + 1, std::string(t.c_str(), t.size() + 1), "the cleaned text", [&](uint8_t *q) { pgfe_hash_string_clean(p, (char *)q); }); });
                 }});
}
static const int NGROUPS = 16 + 12 + 12 + 5 + 2;
static Ops build(World &w, int g) {
    Ops o;
    if (g < 16) hashes(w, o, g);
    else if (g < 28) keyed(w, o, g - 16);
    else if (g < 40) otps(w, o, g - 28);
    else if (g < 45) codec(w, o, g - 40);
    else if (g == 45) fish(w, o);
    else seqs(w, o);
    return o;
}
static std::string group_name(int g) {
    return g < 16 ? std::string("hashing with ") + alg_name[g] : g < 28 ? std::string("HMAC with ") + alg_name[g - 16] : g < 40 ? std::string("passwords with ") + alg_name[g - 28]
           : g < 45 ? mc::strf("encoding %d", g - 40) : g == 45 ? "Blowfish" : "SequentialData";
}
static const std::vector<std::string> &names(int g) {
    static std::map<int, std::vector<std::string>> m;
    auto &v = m[g];
    if (v.empty()) {
        World w(0, 0);
        for (auto &o : build(w, g)) v.push_back(o.name);
    }
    return v;
}
static void play(int g, int am, int rm, const int *seq, int n) {
    mc::count("executions")++;
    World w(am, rm);
    Ops o = build(w, g);
    for (int i = 0; i < n; i++) {
        mc::count("transitions")++;
        w.how += (i ? "; " : " ") + o[(size_t)seq[i]].name;
        w.slot = 0;
        o[(size_t)seq[i]].run(w, i);
        w.look();
    }
    // the results outlive what made them
    w.lent.clear();
    for (auto it = w.last.rbegin(); it != w.last.rend(); ++it) (*it)();
    w.last.clear();
    o.clear();
    w.how += "; the objects destroyed";
    w.look();
}
// Everything of two groups is set up, then: an operation of one, one of the other, the first again.
static void both(const int g[2], int am, int rm, int x, int y) {
    mc::count("executions")++;
    World w(am, rm);
    Ops o[2];
    for (int k = 0; k < 2; k++) {
        o[k] = build(w, g[k]);
        for (auto &p : o[k])
            if (p.name.find("a new ") == 0 || p.name.find("init") != std::string::npos) w.slot = 0, p.run(w, k);
    }
    w.how = " setting up " + group_name(g[0]) + " and " + group_name(g[1]) + ";";
    int seq[3] = {x, y, x};
    for (int i = 0; i < 3; i++) {
        mc::count("transitions")++;
        auto &p = o[i % 2][(size_t)seq[i]];
        w.how += (i ? "; " : " ") + p.name;
        w.slot = 0;
        p.run(w, i);
        w.look();
    }
}
// kind 1: v = group, arguments, results, depth, first operation.  kind 2: v = two groups, arguments, results, first operation
void run_case(const mc::Case &c) {
    if (c.kind == 2) {
        int g[2] = {(int)c.v[0], (int)c.v[1]}, x = (int)c.v[4];
        if (x >= (int)names(g[0]).size()) return;
        for (int y = 0; y < (int)names(g[1]).size(); y++) both(g, (int)c.v[2], (int)c.v[3], x, y);
        return;
    }
    int g = (int)c.v[0], am = (int)c.v[1], rm = (int)c.v[2], depth = (int)c.v[3], N = (int)names(g).size();
    int seq[8] = {(int)c.v[4]};
    std::function<void(int)> dfs = [&](int n) {
        mc::count("states")++;
        if (n == depth) return play(g, am, rm, seq, n);
        if (n == 2) mc::tick();
        for (int op = 0; op < N; op++) {
            seq[n] = op;
            dfs(n + 1);
        }
    };
    if (seq[0] >= N) return;
    dfs(1);
}
std::string describe(const mc::Case &c) {
    auto name = [](int64_t g, int64_t x) { return (size_t)x < names((int)g).size() ? names((int)g)[(size_t)x] : std::string("(none)"); };
    if (c.kind == 2)
        return mc::strf("%s with %s: %s, then every operation of the other, then the first again; arguments %s, results %s", group_name((int)c.v[0]).c_str(), group_name((int)c.v[1]).c_str(),
                        name(c.v[0], c.v[4]).c_str(), arg_name[c.v[2]], res_name[c.v[3]]);
    return mc::strf("%s: every sequence of %" PRId64 " operations that begins with %s; arguments %s, results %s", group_name((int)c.v[0]).c_str(), c.v[3], name(c.v[0], c.v[4]).c_str(), arg_name[c.v[1]],
                    res_name[c.v[2]]);
}
void enumerate() {
    bool T = mc::thorough();
    int deep = mc::part() == 2;
    for (int g = 0; g < NGROUPS; g++)
        for (int am = 0; am < 2; am++)
            for (int rm = 0; rm < 3; rm++)
                for (int first = 0; first < 26; first++) mc::at(1, {g, am, rm, (T ? 4 : 3) + deep, first});
    if (deep)
        for (int g = 0; g < NGROUPS; g++)
            for (int h = 0; h < NGROUPS; h++)
                for (int am = 0; am < 2; am++)
                    for (int rm = 0; rm < 2; rm++) {
                        // one hash or password algorithm stands for the others of its kind, unless it is the same
                        if (!T && g != h && ((h < 16 && h % 5) || (h >= 16 && h < 40 && h % 4))) continue;
                        for (int first = 0; first < 26; first++) mc::at(2, {g, h, am, rm, first});
                    }
}
void selfcheck() {
    hash_selfcheck();
    base_selfcheck();
    bf_selfcheck();
}
