// C36: contexts are plain values. Every context type, at every point of scripts of calls, copied, relocated, saved and put
// back, or swapped, in every way listed; every copy must go on as the original would have. The same for the C++ objects
// that can be copied or moved.
#include <functional>
#include <list>
#include <type_traits>
#include "mc.hpp"
#include "api.hpp"
#include "baseapi.hpp"
#include "clock.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "ref/base.hpp"
#include "ref/blowfish.hpp"
using namespace ref;
using namespace libpgfe;
typedef const pgfe_encode_t *U8;
static std::string how;
static std::map<uint64_t, Bytes> memo;
static const Bytes &dig(int a, const Bytes &m, size_t bits) {
    uint64_t h = mc::fnv(m.data(), m.size(), (uint64_t)a * 1000003 + bits);
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, digest(a, m.data(), m.size(), bits)).first;
    return it->second;
}
static const Bytes &mac(int a, const Bytes &k, const Bytes &m) {
    uint64_t h = mc::fnv(m.data(), m.size(), mc::fnv(k.data(), k.size(), (uint64_t)a + 77));
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, hmac(a, k.data(), k.size(), m.data(), m.size())).first;
    return it->second;
}
static void same(const void *got, size_t gn, const Bytes &want, const std::string &what) {
    mc::outcome(want.data(), want.size());
    mc::count("values_compared")++;
    CHECK(gn == want.size() && !memcmp(got, want.data(), gn), "%s: %s is %s, want %s", how.c_str(), what.c_str(), mc::hex(got, gn).c_str(), mc::hex(want.data(), want.size()).c_str());
}
static const Bytes &stream(int pat, size_t n) { // at least n bytes
    static std::map<int, Bytes> m;
    auto &b = m[pat];
    if (b.size() < n) b = pattern(pat, n < 4096 ? 4096 : n);
    return b;
}
// A context somewhere in memory with the model of what it holds.
struct Mach {
    virtual ~Mach() {}
    virtual size_t size() = 0;
    virtual int steps() = 0;
    virtual void begin() = 0;                // brings a context of any contents to the start
    virtual void step(int i) = 0;            // the i-th step of the script
    virtual void end(const char *who) = 0;   // finishes and compares
    virtual void other(const char *who) = 0; // goes on differently, finishes and compares
    virtual std::unique_ptr<Mach> twin() = 0; // same model
    uint8_t *c = nullptr;
};
struct HashM : Mach {
    int a, pat;
    std::vector<size_t> pieces;
    std::vector<size_t> outs; // SHAKE: squeezed piecewise after the pieces
    Bytes fed;
    size_t squeezed = 0;
    bool fin = false;
    HashM(int a_, int p_, std::vector<size_t> v, std::vector<size_t> o = {}) : a(a_), pat(p_), pieces(v), outs(o) {}
    size_t size() override { return api::hash[a].ctx_size; }
    int steps() override { return (int)(pieces.size() + outs.size()); }
    void begin() override { api::hash[a].init(c), fed.clear(), squeezed = 0, fin = false; }
    void feed(int p, size_t n) {
        Bytes b(stream(p, 4096).begin() + (long)fed.size(), stream(p, 4096).begin() + (long)(fed.size() + n));
        Exact x(b.data(), n);
        api::hash[a].update(c, x.p, n);
        fed.insert(fed.end(), b.begin(), b.end());
    }
    void squeeze(size_t n, const char *who) {
        Exact o(n);
        api::hash[a].digest(c, o.p, n * 8);
        if (is_shake(a)) {
            Bytes w = dig(a, fed, 8 * 4000);
            same(o.p, n, Bytes(w.begin() + (long)squeezed, w.begin() + (long)(squeezed + n)), std::string(who) + "'s output");
            squeezed += n;
        }
        else same(o.p, n, dig(a, fed, 0), std::string(who) + "'s digest");
        fin = true;
    }
    void step(int i) override {
        if ((size_t)i < pieces.size()) feed(pat, pieces[(size_t)i]);
        else squeeze(outs[(size_t)i - pieces.size()], "the context");
    }
    void end(const char *who) override { squeeze(digest_size[a], who); }
    void other(const char *who) override {
        if (!fin) feed(pat + 1, 13 + fed.size() % 150);
        squeeze(!is_shake(a) ? digest_size[a] : outs.empty() ? 333 : outs[0], who);
    }
    std::unique_ptr<Mach> twin() override {
        auto m = std::make_unique<HashM>(*this);
        m->c = nullptr;
        return m;
    }
};
struct HmacM : Mach {
    int a, pat;
    size_t kn;
    std::vector<size_t> pieces;
    Bytes key, fed;
    HmacM(int a_, int p_, size_t k_, std::vector<size_t> v) : a(a_), pat(p_), kn(k_), pieces(v) {}
    size_t size() override { return api::hmac[a].ctx_size; }
    int steps() override { return 1 + (int)pieces.size(); }
    void begin() override { api::hmac[a].init(c), key.clear(), fed.clear(); }
    void feed(int p, size_t n) {
        Bytes b(stream(p, 4096).begin() + (long)fed.size(), stream(p, 4096).begin() + (long)(fed.size() + n));
        Exact x(b.data(), n);
        api::hmac[a].update(c, x.p, n);
        fed.insert(fed.end(), b.begin(), b.end());
    }
    void set(int p) {
        key = pattern(p + 2, kn);
        Exact x(key.data(), kn);
        api::hmac[a].set_key(c, x.p, kn);
    }
    void step(int i) override { i ? feed(pat, pieces[(size_t)i - 1]) : set(pat); }
    void end(const char *who) override {
        Exact o(digest_size[a]);
        api::hmac[a].digest(c, o.p);
        same(o.p, o.n, mac(a, key, fed), std::string(who) + "'s HMAC");
    }
    void other(const char *who) override {
        if (key.empty()) set(pat + 1);
        feed(pat + 1, 11 + fed.size() % 150);
        end(who);
    }
    std::unique_ptr<Mach> twin() override {
        auto m = std::make_unique<HmacM>(*this);
        m->c = nullptr;
        return m;
    }
};
struct FishM : Mach {
    int pat;
    size_t kn;
    Bytes key;
    FishM(int p, size_t k) : pat(p), kn(k) {}
    size_t size() override { return sizeof(pgfe_blowfish_ctx); }
    int steps() override { return 2; }
    void begin() override {
        key = pattern(pat, kn);
        Exact x(key.data(), kn);
        pgfe_blowfish_init((pgfe_blowfish_ctx *)c, x.p, kn);
    }
    void use(bool e, int p, const char *who) {
        Bytes b = pattern(p, 24);
        Exact x(b.data(), 24), o(24);
        e ? pgfe_blowfish_encrypt((pgfe_blowfish_ctx *)c, x.p, 24, o.p) : pgfe_blowfish_decrypt((pgfe_blowfish_ctx *)c, x.p, 24, o.p);
        static std::map<Bytes, std::unique_ptr<ref::Blowfish>> fs;
        auto &f = fs[key];
        if (!f) f.reset(new ref::Blowfish(key.data(), key.size()));
        same(o.p, 24, f->ecb(e, b.data(), 24), std::string(who) + "'s output");
    }
    void step(int i) override { use(i == 0, i, "the context"); }
    void end(const char *who) override { use(true, 3, who), use(false, 4, who); }
    void other(const char *who) override {
        key = pattern(pat + 1, 57 - kn);
        Exact x(key.data(), key.size());
        pgfe_blowfish_init((pgfe_blowfish_ctx *)c, x.p, key.size());
        end(who);
    }
    std::unique_ptr<Mach> twin() override {
        auto m = std::make_unique<FishM>(*this);
        m->c = nullptr;
        return m;
    }
};
enum { MOVED, COPY_AFTER, COPY_FIRST, SAVED, OVER_USED, SWAPPED, BACK_AND_FORTH, LOCKSTEP, AGES, REUSED, NMODES };
static const char *const mode_name[NMODES] = {"moved to another place, the old place overwritten", "copied, the original going on differently first", "copied, the copy going on differently first",
                                              "saved, used differently, and put back", "put over a context used for something else, the old place overwritten", "swapped with another context",
                                              "moved back and forth at every step", "copied, both going on in turn", "copied at two ages", "copied, and the original started anew for something else"};
struct Place_ {
    uint8_t *p;
    size_t n;
    Place_(size_t n_, int f) : p((uint8_t *)malloc(n_)), n(n_) { memset(p, f, n); }
    ~Place_() {
        memset(p, 0x5D, n);
        free(p);
    }
};
// m: the script; u: another one of the same kind
static void go(Mach &m, Mach &u, int mode, int cut) {
    mc::count("executions")++;
    size_t n = m.size();
    auto A = std::make_unique<Place_>(n, 0xA5), B = std::make_unique<Place_>(n, 0x3C), C = std::make_unique<Place_>(n, 0xFF);
    int T = m.steps();
    m.c = A->p;
    m.begin();
    auto rest = [&](Mach &x, int from) {
        for (int i = from; i < T; i++) x.step(i), mc::count("transitions")++;
    };
    if (mode == BACK_AND_FORTH) {
        for (int i = 0; i <= T; i++) {
            uint8_t *to = i % 2 ? A->p : B->p;
            memcpy(to, m.c, n);
            if (cut) memset(m.c, 0x5A, n); // otherwise the other place holds an older state
            m.c = to;
            if (i < T) m.step(i), mc::count("transitions")++;
        }
        return m.end("the moved context");
    }
    for (int i = 0; i < cut; i++) m.step(i), mc::count("transitions")++;
    auto t = m.twin();
    t->c = B->p;
    auto begin_used = [&](uint8_t *at) {
        u.c = at;
        u.begin();
        for (int i = 0; i < u.steps() && i < 2; i++) u.step(i);
    };
    switch (mode) {
    case MOVED:
        memcpy(B->p, A->p, n);
        A.reset();
        rest(*t, cut), t->end("the moved context");
        break;
    case COPY_AFTER:
        memcpy(B->p, A->p, n);
        m.other("the original");
        rest(*t, cut), t->end("the copy");
        break;
    case COPY_FIRST:
        memcpy(B->p, A->p, n);
        t->other("the copy");
        rest(m, cut), m.end("the original");
        break;
    case SAVED:
        memcpy(B->p, A->p, n);
        m.other("the context before it was put back");
        memcpy(A->p, B->p, n);
        t->c = A->p;
        B.reset();
        rest(*t, cut), t->end("the context put back");
        break;
    case OVER_USED:
        begin_used(B->p);
        memcpy(B->p, A->p, n);
        A.reset();
        rest(*t, cut), t->end("the context put over another");
        break;
    case SWAPPED:
        begin_used(B->p);
        memcpy(C->p, A->p, n), memcpy(A->p, B->p, n), memcpy(B->p, C->p, n);
        C.reset();
        u.c = A->p;
        u.end("one swapped context");
        rest(*t, cut), t->end("the other swapped context");
        break;
    case LOCKSTEP:
        memcpy(B->p, A->p, n);
        for (int i = cut; i < T; i++) m.step(i), t->step(i);
        m.end("the original"), t->end("the copy");
        break;
    case AGES: {
        memcpy(B->p, A->p, n);
        if (cut < T) m.step(cut);
        auto v = m.twin();
        v->c = C->p;
        memcpy(C->p, A->p, n);
        rest(m, cut + 1), m.end("the original");
        rest(*v, cut + 1), v->end("the younger copy");
        rest(*t, cut), t->end("the older copy");
        break;
    }
    case REUSED:
        memcpy(B->p, A->p, n);
        begin_used(A->p);
        if (cut < T) t->step(cut);
        u.end("the original, started anew");
        rest(*t, cut + 1), t->end("the copy");
        break;
    }
}
static void script(const std::function<std::unique_ptr<Mach>()> &make, const std::function<std::unique_ptr<Mach>()> &used, int mode, const std::string &name) {
    int T = make()->steps();
    for (int cut = 0; cut <= (mode == BACK_AND_FORTH ? 1 : T); cut++) {
        mc::count("states")++;
        auto m = make(), u = used();
        how = mc::strf("%s, %s after step %d", name.c_str(), mode_name[mode], cut);
        go(*m, *u, mode, cut);
    }
}
// ---- C++ objects
struct Model {
    int id, uses;
};
template <class T> struct Kind {
    std::function<T *(int id)> make;
    std::function<void(T &, Model &)> use;          // changes the object
    std::function<void(T &, Model, const char *)> check; // may be the last call on it
};
template <class T> static void values(const Kind<T> &k, int uses) {
    auto fresh = [&](int id, Model &m, int n) {
        std::unique_ptr<T> o(k.make(id));
        m = {id, 0};
        for (int i = 0; i < n; i++) k.use(*o, m);
        return o;
    };
    Model m, n;
    if constexpr (std::is_copy_constructible<T>::value) {
        mc::count("executions")++;
        auto o = fresh(0, m, uses);
        T c(*o), d(c);
        Model mcopy = m, md = m, mo = m;
        k.use(*o, mo);
        k.check(c, mcopy, "a copy, the original used on");
        k.check(*o, mo, "the original, its copy used");
        o.reset();
        k.use(d, md);
        k.check(d, md, "a copy of a copy, the original gone");
    }
    if constexpr (std::is_copy_assignable<T>::value) {
        for (int v = 0; v < 3; v++) {
            mc::count("executions")++;
            auto o = fresh(0, m, uses), p = fresh(1, n, v);
            *p = *o;
            Model mp = m;
            k.use(*o, m);
            k.use(*p, mp), k.use(*p, mp);
            k.check(*o, m, "an object assigned from");
            o.reset();
            k.check(*p, mp, "an object assigned to, the other one gone");
        }
        auto o = fresh(0, m, uses);
        T &r = *o;
        *o = r;
        k.check(*o, m, "an object assigned to itself");
    }
    if constexpr (std::is_move_constructible<T>::value) {
        for (int gone = 0; gone < 2; gone++) {
            mc::count("executions")++;
            auto o = fresh(0, m, uses);
            T c(std::move(*o));
            if (gone) o.reset();
            k.use(c, m);
            auto d = std::make_unique<T>(std::move(c));
            k.use(*d, m);
            k.check(*d, m, "an object moved twice");
        }
        mc::count("executions")++;
        std::vector<T> v; // grows, moving what it holds
        std::vector<Model> vm;
        for (int i = 0; i < 9; i++) {
            auto o = fresh(i % 3, m, i % 2 ? uses : 0);
            v.push_back(std::move(*o));
            vm.push_back(m);
            k.use(v[(size_t)i / 2], vm[(size_t)i / 2]);
        }
        for (size_t i = 0; i < v.size(); i++) k.check(v[i], vm[i], "an element of a vector that grew");
    }
    if constexpr (std::is_move_assignable<T>::value) {
        for (int w = 0; w < 3; w++) {
            mc::count("executions")++;
            auto o = fresh(0, m, uses), p = fresh(1, n, w);
            *p = std::move(*o);
            o.reset();
            k.use(*p, m);
            k.check(*p, m, "an object move-assigned to");
        }
    }
    if constexpr (std::is_move_assignable<T>::value && std::is_move_constructible<T>::value) {
        mc::count("executions")++;
        auto o = fresh(0, m, uses), p = fresh(1, n, 1);
        std::swap(*o, *p);
        k.use(*o, n), k.use(*p, m);
        k.check(*o, n, "a swapped object"), k.check(*p, m, "the other swapped object");
    }
}
static Bytes id_key(int id, size_t n) { return pattern(id, n); }
static Bytes used_data(const Model &m) {
    Bytes b;
    for (int i = 0; i < m.uses; i++) {
        Bytes x = pattern((m.id + i) % 3, 50 + 17 * (size_t)i);
        b.insert(b.end(), x.begin(), x.end());
    }
    return b;
}
static void next_data(Bytes &x, Model &m) { x = pattern((m.id + m.uses) % 3, 50 + 17 * (size_t)m.uses), m.uses++; }
static void objects(int type, int a, int uses) {
    clk::now() = 1700000012;
    how = mc::strf("%d uses before", uses);
    Bytes x;
    switch (type) {
    case 0: {
        Kind<HashEncoder> k;
        how = std::string("HashEncoder(") + alg_name[a] + "), " + how;
        k.make = [=](int) { return new HashEncoder(api::choice[a]); };
        k.use = [&](HashEncoder &e, Model &m) { next_data(x, m), e.update(x.data(), x.size()); };
        k.check = [=](HashEncoder &e, Model m, const char *w) { auto *d = e.get_digest(); same(d->data(), d->size(), dig(a, used_data(m), is_shake(a) ? 8 * digest_size[a] : 0), w); };
        return values(k, uses);
    }
    case 1: {
        Kind<HMACEncoder> k;
        how = std::string("HMACEncoder(") + alg_name[a] + "), " + how;
        k.make = [=](int id) { Bytes b = id_key(id, 30 + 60 * (size_t)id); return new HMACEncoder(api::choice[a], (U8)b.data(), b.size()); };
        k.use = [&](HMACEncoder &e, Model &m) { next_data(x, m), e.update(x.data(), x.size()); };
        k.check = [=](HMACEncoder &e, Model m, const char *w) { auto *d = e.get_digest(); same(d->data(), d->size(), mac(a, id_key(m.id, 30 + 60 * (size_t)m.id), used_data(m)), w); };
        return values(k, uses);
    }
    case 2: {
        Kind<HOTP> k;
        how = std::string("HOTP(") + alg_name[a] + "), " + how;
        k.make = [=](int id) { Bytes b = id_key(id, 20); return new HOTP((U8)b.data(), 20, api::choice[a]); };
        k.use = [=](HOTP &e, Model &m) { e.set_counter((uint64_t)++m.uses); };
        k.check = [=](HOTP &e, Model m, const char *w) {
            Bytes b = id_key(m.id, 20);
            int64_t c = hotp(a, b.data(), 20, (uint64_t)m.uses, 8);
            std::string s = mc::strf("%08" PRId64, c), g;
            if (c >= 0) g = e.generate_str(8), same(g.data(), g.size(), Bytes(s.begin(), s.end()), w);
        };
        return values(k, uses);
    }
    case 3: {
        Kind<TOTP> k;
        how = std::string("TOTP(") + alg_name[a] + "), " + how;
        k.make = [=](int id) { Bytes b = id_key(id, 20); return new TOTP((U8)b.data(), 20, 30, api::choice[a]); };
        k.use = [=](TOTP &e, Model &m) { e.set_interval(30 + ++m.uses); };
        k.check = [=](TOTP &e, Model m, const char *w) {
            Bytes b = id_key(m.id, 20);
            int64_t c = hotp(a, b.data(), 20, (uint64_t)(1700000012 / (30 + m.uses)), 8);
            std::string s = mc::strf("%08" PRId64, c), g;
            if (c >= 0) g = e.generate_str(8), same(g.data(), g.size(), Bytes(s.begin(), s.end()), w);
        };
        return values(k, uses);
    }
    case 4: {
        Kind<libpgfe::Blowfish> k;
        how = "Blowfish, " + how;
        k.make = [=](int id) { Bytes b = id_key(id, 16 + 8 * (size_t)id); return new libpgfe::Blowfish((U8)b.data(), b.size()); };
        k.use = [=](libpgfe::Blowfish &e, Model &m) { Bytes b = pattern(m.uses++ % 3, 21); e.encrypt((U8)b.data(), b.size()); };
        k.check = [=](libpgfe::Blowfish &e, Model m, const char *w) {
            Bytes key = id_key(m.id, 16 + 8 * (size_t)m.id), b = pattern(4, 40);
            ref::Blowfish f(key.data(), key.size());
            auto d = e.encrypt((U8)b.data(), 40);
            same(d.data(), d.size(), f.ecb(true, b.data(), 40), w);
            auto y = e.decrypt((U8)b.data(), 40);
            same(y.data(), y.size(), f.ecb(false, b.data(), 40), w);
        };
        return values(k, uses);
    }
    case 5: {
        Kind<SequentialData> k;
        how = "SequentialData, " + how;
        k.make = [=](int id) { Bytes b = id_key(id, 10 + 20 * (size_t)id); b[0] = 0; return new SequentialData(b.data(), b.size()); };
        k.use = [=](SequentialData &e, Model &m) { e.push_back((pgfe_encode_t)(7 + m.uses++)); };
        k.check = [=](SequentialData &e, Model m, const char *w) {
            Bytes b = id_key(m.id, 10 + 20 * (size_t)m.id);
            b[0] = 0;
            for (int i = 0; i < m.uses; i++) b.push_back((uint8_t)(7 + i));
            same(e.data(), e.size(), b, w);
            std::string h = e.hex_str(), s;
            for (uint8_t y : b) s += mc::strf("%02x", y);
            same(h.data(), h.size(), Bytes(s.begin(), s.end()), std::string(w) + " as hex");
            size_t n;
            auto *p = e.to_pgfe_seq(n);
            same(p, n, b, std::string(w) + " as a pointer");
            e.trim_left_();
            while (!b.empty() && !b[0]) b.erase(b.begin());
            same(e.data(), e.size(), b, std::string(w) + " trimmed");
        };
        return values(k, uses);
    }
    default: {
        auto check = [=](AbstractBaseEncoding &e, Model m, const char *w) {
            Bytes b = pattern(m.id, 41);
            std::string want = base_encode(a, b.data(), 41), got = e.encode((U8)b.data(), 41);
            same(got.data(), got.size(), Bytes(want.begin(), want.end()), w);
            auto d = e.decode(want.c_str());
            same(d.data(), d.size(), b, w);
        };
        auto use = [=](AbstractBaseEncoding &e, Model &m) { Bytes b = pattern(m.uses, 100 + 90 * (size_t)m.uses); m.uses++; e.encode((U8)b.data(), b.size()); };
        how = mc::strf("codec %d, ", a) + how;
        if (a == 0) {
            Kind<Base16> k{[](int) { return new Base16; }, use, check};
            return values(k, uses);
        }
        if (a < 3) {
            Kind<Base32> k{[=](int) { return new Base32(a == 2); }, use, check};
            return values(k, uses);
        }
        Kind<Base64> k{[=](int) { return new Base64(a == 4); }, use, check};
        return values(k, uses);
    }
    }
}
static std::vector<size_t> sizes(size_t bs) { return {0, 1, 3, bs - 1, bs, bs + 1, 2 * bs + 5}; }
// kind 1: v = alg, way, first piece.  kind 2: v = alg, way, key length, first piece.  kind 3: v = key length, way.  kind 4: v = type, alg, uses.
void run_case(const mc::Case &c) {
    if (c.kind == 1) {
        int a = (int)c.v[0];
        size_t bs = block_size[a], n1 = (size_t)c.v[2];
        for (size_t n2 : sizes(bs))
            for (size_t n3 : {(size_t)0, bs / 2}) {
                auto used = [=] { return std::make_unique<HashM>(a, 2, std::vector<size_t>{bs + 7, 20}); };
                script([=] { return std::make_unique<HashM>(a, 0, std::vector<size_t>{n1, n2, n3}); }, used, (int)c.v[1], mc::strf("%s context fed %zu, %zu and %zu bytes", alg_name[a], n1, n2, n3));
                if (is_shake(a) && !n3)
                for (auto outs : {std::vector<size_t>{n1, bs - 1, 3}, std::vector<size_t>{n1, n1, n1}})
                    script([=] { return std::make_unique<HashM>(a, 0, std::vector<size_t>{n2}, outs); }, used, (int)c.v[1],
                           mc::strf("%s context fed %zu bytes, giving %zu, %zu and %zu", alg_name[a], n2, outs[0], outs[1], outs[2]));
            }
    }
    else if (c.kind == 2) {
        int a = (int)c.v[0];
        size_t bs = block_size[a], kn = (size_t)c.v[2], n1 = (size_t)c.v[3];
        for (size_t n2 : sizes(bs))
            script([=] { return std::make_unique<HmacM>(a, 0, kn, std::vector<size_t>{n1, n2}); }, [=] { return std::make_unique<HmacM>(a, 1, 33, std::vector<size_t>{bs + 1}); }, (int)c.v[1],
                   mc::strf("HMAC-%s context, key of %zu bytes, fed %zu and %zu bytes", alg_name[a], kn, n1, n2));
    }
    else if (c.kind == 3)
        script([=] { return std::make_unique<FishM>(0, (size_t)c.v[0]); }, [=] { return std::make_unique<FishM>(2, 57 - (size_t)c.v[0]); }, (int)c.v[1], mc::strf("Blowfish context, key of %" PRId64 " bytes", c.v[0]));
    else
        objects((int)c.v[0], (int)c.v[1], (int)c.v[2]);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 1) return mc::strf("%s context first fed %" PRId64 " bytes, %s at every step", alg_name[c.v[0]], c.v[2], mode_name[c.v[1]]);
    if (c.kind == 2) return mc::strf("HMAC-%s context with a key of %" PRId64 " bytes first fed %" PRId64 " bytes, %s at every step", alg_name[c.v[0]], c.v[2], c.v[3], mode_name[c.v[1]]);
    if (c.kind == 3) return mc::strf("Blowfish context with a key of %" PRId64 " bytes, %s at every step", c.v[0], mode_name[c.v[1]]);
    static const char *const tn[7] = {"HashEncoder", "HMACEncoder", "HOTP", "TOTP", "Blowfish", "SequentialData", "codec"};
    return mc::strf("copies and moves of %s objects (%" PRId64 "), %" PRId64 " uses before", tn[c.v[0]], c.v[1], c.v[2]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int type = 0; type < 7; type++)
        for (int a = 0; a < (type == 0 ? 16 : type < 4 ? 12 : type < 6 ? 1 : 5); a++)
            for (int uses = 0; uses < (T ? 9 : 4); uses++) mc::at(4, {type, a, uses});
    for (int mode = 0; mode < NMODES; mode++) {
        for (int a = 0; a < 16; a++)
            for (size_t n = 0; n <= (T ? 4 : 2) * block_size[a] + 2; n++) {
                size_t r = n % block_size[a];
                if (!T && n > 9 && n < 2 * block_size[a] - 3 && r > 1 && r + 20 < block_size[a] && n % 8 > 1) continue;
                mc::at(1, {a, mode, (int64_t)n});
            }
        for (int a = 0; a < 12; a++)
            for (size_t kn : {(size_t)1, (size_t)20, block_size[a] - 1, block_size[a], block_size[a] + 1, 2 * block_size[a] + 9}) {
                if (T)
                    for (size_t n = 0; n <= 2 * block_size[a] + 2; n++) mc::at(2, {a, mode, (int64_t)kn, (int64_t)n});
                else
                    for (size_t n : {(size_t)0, (size_t)1, (size_t)50, block_size[a] - 1, block_size[a], block_size[a] + 1}) mc::at(2, {a, mode, (int64_t)kn, (int64_t)n});
            }
        for (int kn = 1; kn <= 56; kn++) mc::at(3, {kn, mode});
    }
}
void selfcheck() {
    hash_selfcheck();
    base_selfcheck();
    bf_selfcheck();
}
