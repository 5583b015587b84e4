// Units: the programs of ops.hpp with several data sets, and small programs for every length of a family.
#pragma once
#include "ops.hpp"
#include "ref/hex.hpp"

namespace units {
using namespace ops;
enum Family { PROGS, HASH, HMAC, BASE, HEX, BLOWFISH, HOTPF, SHAKEF, SEQ, ENCODER, FILEH, BASETEXT, OTPSEC, OVER, SHORT, FAMILIES };
static const char *const fam_name[FAMILIES] = {"program", "hash of a length", "hmac of key and message lengths", "base encoding of a length", "hex of a length", "blowfish of key and data lengths",
                                               "hotp of a secret length and counter", "shake output of a bit length", "SequentialData of a length", "HashEncoder digest of a bit length", "file of a length",
                                               "base text of a length with noise", "OTP secret of a length set by way", "overload with data of a length", "short texts with a prefix"};
inline int algs(int f) {
    switch (f) {
    case PROGS: return (int)all().size();
    case HASH: case ENCODER: case FILEH: return 16;
    case HMAC: case HOTPF: return 12;
    case BASE: case BASETEXT: return 5;
    case SHAKEF: return 4;
    case OTPSEC: return 26;
    case OVER: return 42;
    case SHORT: return 6;
    default: return 1;
    }
}
inline Bytes D(int64_t n, int which, int64_t len) { return pattern(4 + (int)((n * 3 + which) % 40), (size_t)len); }
// A secret given to an OTP object in each way there is: a = 0-3 constructors, 4-11 setters (5-8 and 10, 11: as text or
// Base32, 12 with noise in it), 13-16 the base class's setters; 17-20 TOTP's constructors, 21-25 setters of a TOTP object.
inline void otp_secret(Rec &r, int a, int64_t n) {
    int al = 1 + (int)(n % 11);
    bool totp = a >= 17;
    Bytes k = D(n, 13, n % 150);
    if (a == 1 || a == 5 || a == 7 || a == 14 || a == 18 || a == 22) k = nonul(k);
    std::string t = base_encode(E32, k.data(), k.size(), n % 2);
    for (size_t i = 0; i < t.size(); i++)
        if (n % 3 == 0 || (n % 3 == 1 && i % 2)) t[i] = (char)tolower(t[i]);
    if (a == 12 || a == 25) for (size_t i = 0; i < t.size(); i += 5) t.insert(i, i % 2 ? "-" : " \x80");
    U8 p = r.in(k);
    const char *cz = r.cs(S(nonul(k))), *ct = r.cs(t);
    auto *sk = r.keep(new std::string(S(k))), *st = r.keep(new std::string(t));
    auto *sd = r.keep(new SequentialData(k.data(), k.size()));
    uint64_t co = totp ? (uint64_t)NOW / 30 : (uint64_t)n * 3;
    auto alg = api::choice[al];
    auto *h = totp ? nullptr : r.hold<HOTP>();
    auto *q = totp ? r.hold<TOTP>() : nullptr;
    r.step([=](Out &) {
        clk::now() = NOW;
        switch (a) {
        case 0: h->make(p, k.size(), alg); break;
        case 1: h->make(cz, alg); break;
        case 2: h->make(*sk, alg); break;
        case 3: h->make(*sd, alg); break;
        case 17: q->make(p, k.size(), 30, alg); break;
        case 18: q->make(cz, 30, alg); break;
        case 19: q->make(*sk, 30, alg); break;
        case 20: q->make(*sd, 30, alg); break;
        default: totp ? q->make(30, alg) : h->make(alg);
        }
    });
    r.step([=](Out &) {
        HOTP &o = totp ? (HOTP &)**q : **h;
        AbstractOTP &b = o;
        switch (a) {
        case 4: LIB(o.set_secret(p, k.size())); break;
        case 5: LIB(o.set_secret(cz, false)); break;
        case 6: LIB(o.set_secret(ct, true)); break;
        case 7: LIB(o.set_secret((const std::string &)*sk, false)); break;
        case 8: LIB(o.set_secret((const std::string &)*st, true)); break;
        case 9: LIB(o.set_secret((const SequentialData &)*sd)); break;
        case 10: case 12: case 21: case 25: LIB(o.set_secret_from_base32(ct)); break;
        case 11: case 23: LIB(o.set_secret_from_base32((const std::string &)*st)); break;
        case 13: LIB(b.set_secret(p, k.size())); break;
        case 14: case 22: LIB(b.set_secret(cz)); break;
        case 15: LIB(b.set_secret((const std::string &)*sk)); break;
        case 16: case 24: LIB(b.set_secret((const SequentialData &)*sd)); break;
        }
        if (!totp) LIB(o.set_counter(co));
    });
    r.step(
        [=](Out &s) {
            clk::now() = NOW;
            AbstractOTP &o = totp ? (AbstractOTP &)**q : **h;
            std::string v = LIB(o.generate_str(8));
            s += v;
            totp ? q->kill() : h->kill();
        },
        [=] { return padnum(hotp(al, k.data(), k.size(), co, 8), 8); });
}
inline void feed(AbstractEncoder &e, int form, U8 p, size_t n, const char *z, std::string *s, SequentialData *d) {
    if (form == 0) LIB(e.update(p, n));
    if (form == 1) LIB(e.update(z));
    if (form == 2) LIB(e.update(*s));
    if (form == 3) LIB(e.update(*d));
}
// One overload with data of n bytes: a = 0-3 HashEncoder, 4-19 HMACEncoder (key form x message form), 20-35 Blowfish (key
// form x data form), 36-40 the base encodings, 41 SequentialData.
inline void overload(Rec &r, int a, int64_t n) {
    Bytes b = nonul(D(n, 14, n)), k = nonul(D(n, 15, n * 3 % 200));
    U8 p = r.in(b);
    const char *z = r.cs(S(b));
    auto *s = r.keep(new std::string(S(b)));
    auto *d = r.keep(new SequentialData(b.data(), b.size()));
    if (a < 4) {
        int al = (int)(n % 16);
        auto *e = r.hold<HashEncoder>();
        r.step([=](Out &) { e->make(api::choice[al]); });
        r.step([=](Out &) { feed(**e, a, p, b.size(), z, s, d); });
        r.step([=](Out &o) { auto *x = LIB((*e)->get_digest()); o += S(*x); e->kill(); }, [=] { return dig(al, b, is_shake(al) ? digest_size[al] * 8 : 0); });
        return;
    }
    if (a >= 20 && a < 36) k = nonul(D(n, 15, n % 56 + 1));
    U8 kp = r.in(k);
    const char *kz = r.cs(S(k));
    auto *ks = r.keep(new std::string(S(k)));
    auto *kd = r.keep(new SequentialData(k.data(), k.size()));
    if (a < 20) {
        int al = (int)(n % 12), kf = (a - 4) / 4, mf = (a - 4) % 4;
        auto *e = r.hold<HMACEncoder>();
        r.step([=](Out &) {
            auto c = api::choice[al];
            kf == 0 ? e->make(c, kp, k.size()) : kf == 1 ? e->make(c, kz) : kf == 2 ? e->make(c, *ks) : e->make(c, *kd);
        });
        r.step([=](Out &) { feed(**e, mf, p, b.size(), z, s, d); });
        r.step([=](Out &o) { auto *x = LIB((*e)->get_digest()); o += S(*x); e->kill(); }, [=] { return S(hmac(al, k.data(), k.size(), b.data(), b.size())); });
    }
    else if (a < 36) {
        int kf = (a - 20) / 4, mf = (a - 20) % 4;
        auto *x = r.hold<libpgfe::Blowfish>();
        auto ecb = [=](bool enc) { return S(ref::Blowfish(k.data(), k.size()).ecb(enc, b.data(), b.size())); };
        r.step([=](Out &) { kf == 0 ? x->make(kp, k.size()) : kf == 1 ? x->make(kz) : kf == 2 ? x->make((const std::string &)*ks) : x->make((const SequentialData &)*kd); });
        r.step([=](Out &o) {
            SequentialData y = mf == 0 ? LIB((*x)->encrypt(p, b.size())) : mf == 1 ? LIB((*x)->encrypt(z)) : mf == 2 ? LIB((*x)->encrypt((const std::string &)*s)) : LIB((*x)->encrypt((const SequentialData &)*d));
            o += S(y);
        }, [=] { return ecb(true); });
        bool whole = b.size() % 8 == 0; // what deciphering an incomplete block gives is not defined
        r.step([=](Out &o) {
            SequentialData y = mf == 0 ? LIB((*x)->decrypt(p, b.size())) : mf == 1 ? LIB((*x)->decrypt(z)) : mf == 2 ? LIB((*x)->decrypt((const std::string &)*s)) : LIB((*x)->decrypt((const SequentialData &)*d));
            if (whole) o += S(y);
            x->kill();
        }, [=] { return whole ? ecb(false) : std::string(); });
    }
    else if (a < 41) {
        int e = a - 36;
        std::string t = base_encode(e, b.data(), b.size()), l = t;
        if (e < E64) for (char &c : l) c = (char)tolower(c);
        const char *tl = r.cs(l);
        auto *sl = r.keep(new std::string(l));
        auto *o16 = r.hold<Base16>();
        auto *o32 = r.hold<Base32>();
        auto *o64 = r.hold<Base64>();
        auto obj = [=]() -> AbstractBaseEncoding & { return e == 0 ? (AbstractBaseEncoding &)**o16 : e < 3 ? (AbstractBaseEncoding &)**o32 : (AbstractBaseEncoding &)**o64; };
        r.step([=](Out &) { e == 0 ? o16->make() : e < 3 ? o32->make(e == 2) : o64->make(e == 4); });
        for (int form = 0; form < 4; form++)
            r.step([=](Out &o) { std::string x = form == 0 ? LIB(obj().encode(p, b.size())) : form == 1 ? LIB(obj().encode(z)) : form == 2 ? LIB(obj().encode((const std::string &)*s)) : LIB(obj().encode((const SequentialData &)*d)); o += x; },
                   [=] { return t; });
        r.step([=](Out &o) { SequentialData x = LIB(obj().decode(tl)); o += S(x); }, [=] { return S(b); });
        r.step([=](Out &o) { SequentialData x = LIB(obj().decode((const std::string &)*sl)); o += S(x); e == 0 ? o16->kill() : e < 3 ? o32->kill() : o64->kill(); }, [=] { return S(b); });
    }
    else {
        std::string h = hexs(b), u = h;
        for (char &c : u) c = (char)toupper(c);
        const char *hz = r.cs("0x" + u);
        auto *hs = r.keep(new std::string(u + "h"));
        auto w = [=] { return S(b); };
        for (int form = 0; form < 6; form++) {
            auto *x = r.hold<SequentialData>();
            r.step([=](Out &o) {
                form == 0 ? x->make(p, b.size()) : form == 1 ? x->make(z) : form == 2 ? x->make((const std::string &)*s) : form == 3 ? x->make((const SequentialData &)*d) : form == 4 ? x->make((const SequentialData *)d)
                                                                                                                                                                        : x->make();
                o += S(**x);
                x->kill();
            }, [=] { return form == 5 ? std::string() : S(b); });
        }
        for (int form = 0; form < 5; form++)
            r.step([=](Out &o) {
                SequentialData *x = form == 0 ? LIB(utils::to_sequential_data(p, b.size())) : form == 1 ? LIB(utils::to_sequential_data(z)) : form == 2 ? LIB(utils::to_sequential_data(*s))
                                  : form == 3 ? LIB(utils::sequential_data::from_hex_string(hz)) : LIB(utils::sequential_data::from_hex_string(*hs));
                o += S(*x);
                delete x;
            }, w);
        r.step([=](Out &o) { std::string x = LIB(d->hex_str()); o += x; }, [=] { return h; });
        r.step([=](Out &o) { std::string x = LIB(d->to_str(false)); o += x; }, w);
    }
}
// Every text of two given characters and up to two more, over character classes; a = 0-4 base decoders, 5 hex.
static const char *const short_cls[6] = {"0Fa= x\x80", "A7n= 1\x80", "0Vn= W\xff", "A/z= _\xc3", "A_z= -\x80", "09aFxXh \x80"};
inline int short_count(int a) {
    int c = (int)strlen(short_cls[a]);
    return c * c + c + 1;
}
inline void short_texts(Rec &r, int a, int64_t n) {
    const char *cls = short_cls[a];
    int C = (int)strlen(cls);
    n %= short_count(a);
    std::string pre;
    if (n > C) pre = {cls[(n - C - 1) / C], cls[(n - C - 1) % C]};
    else if (n) pre = {cls[n - 1]};
    std::vector<std::string> ts{pre};
    if (n > C)
        for (int i = 0; i < C; i++) {
            ts.push_back(pre + cls[i]);
            for (int j = 0; j < C; j++) ts.push_back(pre + cls[i] + cls[j]);
        }
    auto *o16 = a == 0 ? r.hold<Base16>() : nullptr;
    auto *o32 = a == 1 || a == 2 ? r.hold<Base32>() : nullptr;
    auto *o64 = a == 3 || a == 4 ? r.hold<Base64>() : nullptr;
    auto obj = [=]() -> AbstractBaseEncoding & { return o16 ? (AbstractBaseEncoding &)**o16 : o32 ? (AbstractBaseEncoding &)**o32 : (AbstractBaseEncoding &)**o64; };
    if (a < 5) r.step([=](Out &) { o16 ? o16->make() : o32 ? o32->make(a == 2) : o64->make(a == 4); });
    for (auto &t : ts) {
        const char *c = r.cs(t);
        auto *cs = r.keep(new std::string(t));
        if (a < 5) {
            Bytes b = base_decode(a, t.c_str());
            auto w = [=] { return S(b); };
            uint8_t *o = r.out(bapi::dec_room(a, b.size()));
            r.step([=](Out &s) { size_t m = LIB(bapi::dec[a](c, o)); s += S(o, m); }, w);
            r.step([=](Out &s) { SequentialData x = LIB(obj().decode(c)); s += S(x); }, w);
            r.step([=](Out &s) { SequentialData x = LIB(obj().decode((const std::string &)*cs)); s += S(x); }, w);
            continue;
        }
        bool x2 = t.size() > 1 && (t[1] == 'x' || t[1] == 'X');
        if (x2 && t[0] != '0') continue; // may be read either way
        std::string dg = digits_of(x2 ? t.substr(2) : t);
        Bytes b = bytes_of(dg);
        char *o = (char *)r.out(t.size() + 1), *ip = (char *)r.out(t.size() + 1);
        uint8_t *o2 = r.out(b.size());
        auto cl = [=] { return std::to_string(dg.size()) + S(dg.c_str(), dg.size() + 1); };
        r.step([=](Out &s) { size_t m = LIB(pgfe_hash_string_clean(c, o)); s += std::to_string(m) + S(o, m + 1); }, cl);
        r.step([=](Out &s) { memcpy(ip, t.c_str(), t.size() + 1); size_t m = LIB(pgfe_hash_string_clean_(ip)); s += std::to_string(m) + S(ip, m + 1); }, cl);
        r.step([=](Out &s) { size_t m = LIB(pgfe_hash_length(c)); s += std::to_string(m); }, [=] { return std::to_string(b.size()); });
        r.step([=](Out &s) { size_t m = LIB(pgfe_hex_string_to_hash(c, o2)); s += std::to_string(m) + S(o2, m); }, [=] { return std::to_string(b.size()) + S(b); });
        r.step([=](Out &s) { SequentialData *x = LIB(utils::sequential_data::from_hex_string(c)); s += S(*x); delete x; }, [=] { return S(b); });
        r.step([=](Out &s) { SequentialData *x = LIB(utils::sequential_data::from_hex_string(*cs)); s += S(*x); delete x; }, [=] { return S(b); });
    }
    if (a < 5) r.step([=](Out &) { o16 ? o16->kill() : o32 ? o32->kill() : o64->kill(); });
}
inline void build(Rec &r, int f, int a, int64_t n) {
    if (f == PROGS) return all()[(size_t)a].build(r);
    if (f == HASH) {
        size_t ds = digest_size[a], bits = is_shake(a) ? ds * 8 : 0;
        auto *h = &api::hash[a];
        Bytes b = D(n, 0, n), bz = nonul(b);
        U8 p = r.in(b);
        const char *z = r.cs(S(bz));
        void *c = r.raw(h->ctx_size);
        uint8_t *o = r.out(ds), *o2 = r.out(ds), *o3 = r.out(ds);
        auto w = [=] { return dig(a, b, bits); };
        r.step([=](Out &s) { LIB(h->encode(p, b.size(), o, ds * 8)); s += S(o, ds); }, w);
        r.step([=](Out &s) { LIB(h->encode_default((U8)z, o2, ds * 8)); s += S(o2, ds); }, [=] { return dig(a, bz, bits); });
        r.step([=](Out &s) {
            size_t i = b.size() / 3, j = b.size() - b.size() / 5;
            LIB(h->init(c));
            LIB(h->update(c, p, i));
            LIB(h->update(c, p + i, j - i));
            LIB(h->update(c, p + j, b.size() - j));
            LIB(h->digest(c, o3, ds * 8));
            s += S(o3, ds);
        }, w);
    }
    else if (f == HMAC) {
        size_t ds = digest_size[a];
        auto *h = &api::hmac[a];
        Bytes k = D(n, 1, n), b = D(n, 2, (n * 5) % 300);
        U8 pk = r.in(k), p = r.in(b);
        uint8_t *o = r.out(ds), *o2 = r.out(ds);
        void *c = r.raw(h->ctx_size);
        auto w = [=] { return S(hmac(a, k.data(), k.size(), b.data(), b.size())); };
        r.step([=](Out &s) { LIB(h->oneshot(pk, k.size(), p, b.size(), o)); s += S(o, ds); }, w);
        r.step([=](Out &s) {
            LIB(h->init(c));
            LIB(h->set_key(c, pk, k.size()));
            LIB(h->update(c, p, b.size()));
            LIB(h->digest(c, o2));
            s += S(o2, ds);
        }, w);
        auto *e = r.hold<HMACEncoder>();
        r.step([=](Out &s) {
            if (!e->p) e->make(api::choice[a], pk, k.size()), LIB((*e)->update(p, b.size()));
            auto *d = LIB((*e)->get_digest());
            s += S(*d);
            e->kill();
        }, w);
    }
    else if (f == BASE) {
        Bytes b = D(n, 3, n);
        std::string t = base_encode(a, b.data(), b.size()), u = base_encode(a, b.data(), b.size(), false);
        U8 p = r.in(b);
        const char *pt = r.cs(t), *pu = r.cs(u);
        char *o = (char *)r.out(t.size() + 1);
        uint8_t *o2 = r.out(bapi::dec_room(a, b.size())), *o3 = r.out(bapi::dec_room(a, b.size()));
        auto w = [=] { return S(b); };
        r.step([=](Out &s) { size_t m = LIB(bapi::enc[a](p, b.size(), o)); s += S(o, m + 1); }, [=] { return S(t.c_str(), t.size() + 1); });
        r.step([=](Out &s) { size_t m = LIB(bapi::dec[a](pt, o2)); s += S(o2, m); }, w);
        r.step([=](Out &s) { size_t m = LIB(bapi::dec[a](pu, o3)); s += S(o3, m); }, w);
        auto *o16 = r.hold<Base16>();
        auto *o32 = r.hold<Base32>();
        auto *o64 = r.hold<Base64>();
        auto obj = [=]() -> AbstractBaseEncoding & { return a == 0 ? (AbstractBaseEncoding &)**o16 : a < 3 ? (AbstractBaseEncoding &)**o32 : (AbstractBaseEncoding &)**o64; };
        r.step([=](Out &) { a == 0 ? o16->make() : a < 3 ? o32->make(a == 2) : o64->make(a == 4); });
        r.step([=](Out &s) { std::string x = LIB(obj().encode(p, b.size())); s += x; }, [=] { return t; });
        r.step([=](Out &s) { SequentialData x = LIB(obj().decode(pu)); s += S(x); a == 0 ? o16->kill() : a < 3 ? o32->kill() : o64->kill(); }, w);
    }
    else if (f == BASETEXT) {
        std::string t;
        Bytes x = D(n, 4, n);
        for (int64_t i = 0; i < n; i++) t += x[(size_t)i] % 5 == 0 ? (char)(x[(size_t)i] | 1) : x[(size_t)i] % 31 == 1 ? '=' : enc_char(a, x[(size_t)i] % (1 << enc_bits[a]));
        Bytes b = base_decode(a, t.c_str());
        const char *pt = r.cs(t);
        uint8_t *o = r.out(bapi::dec_room(a, b.size()));
        r.step([=](Out &s) { size_t m = LIB(bapi::dec[a](pt, o)); s += S(o, m); }, [=] { return S(b); });
    }
    else if (f == HEX) {
        Bytes b = D(n, 5, n);
        std::string h = hexs(b), t = "0X" + h + "h";
        U8 p = r.in(b);
        const char *c = r.cs(t), *odd = r.cs(h.empty() ? h : h.substr(1));
        char *o = (char *)r.out(h.size() + 1), *o2 = (char *)r.out(t.size() + 1);
        uint8_t *o3 = r.out(b.size()), *o4 = r.out(b.size());
        r.step([=](Out &s) { size_t m = LIB(pgfe_hash_to_hex_string(p, b.size(), o)); s += S(o, m + 1); }, [=] { return S(h.c_str(), h.size() + 1); });
        r.step([=](Out &s) { size_t m = LIB(pgfe_hex_string_to_hash(c, o3)); s += S(o3, m); }, [=] { return S(b); });
        r.step([=](Out &s) { size_t m = LIB(pgfe_hex_string_to_hash(odd, o4)); s += S(o4, m); }, [=] { Bytes y = b; if (y.size()) y[0] &= 15; return S(y); });
        r.step([=](Out &s) { size_t m = LIB(pgfe_hash_string_clean(c, o2)); s += S(o2, m + 1); }, [=] { return S(h.c_str(), h.size() + 1); });
        r.step([=](Out &s) { s += std::to_string(LIB(pgfe_hash_length(c))); }, [=] { return std::to_string(b.size()); });
        r.step([=](Out &s) { SequentialData *d = LIB(utils::sequential_data::from_hex_string(c)); s += S(*d); delete d; }, [=] { return S(b); });
    }
    else if (f == BLOWFISH) {
        Bytes k = D(n, 6, n % 56 + 1), b = D(n, 7, n), e = ref::Blowfish(k.data(), k.size()).ecb(true, b.data(), b.size()), back = b;
        back.resize(e.size(), 0);
        auto *c = (pgfe_blowfish_ctx *)r.raw(sizeof(pgfe_blowfish_ctx));
        U8 pk = r.in(k), p = r.in(b), pe = r.in(e);
        uint8_t *o = r.out(e.size()), *o2 = r.out(e.size());
        r.step([=](Out &) { LIB(pgfe_blowfish_init(c, pk, k.size())); });
        r.step([=](Out &s) { size_t m = LIB(pgfe_blowfish_encrypt(c, p, b.size(), o)); s += std::to_string(m) + S(o, e.size()); }, [=] { return std::to_string(e.size()) + S(e); });
        r.step([=](Out &s) { size_t m = LIB(pgfe_blowfish_decrypt(c, pe, e.size(), o2)); s += std::to_string(m) + S(o2, e.size()); }, [=] { return std::to_string(e.size()) + S(back); });
        auto *x = r.hold<libpgfe::Blowfish>();
        r.step([=](Out &) { x->make(pk, k.size()); });
        r.step([=](Out &s) { SequentialData d = LIB((*x)->encrypt(p, b.size())); s += S(d); }, [=] { return S(e); });
        r.step([=](Out &s) { SequentialData d = LIB((*x)->decrypt(pe, e.size())); s += S(d); x->kill(); }, [=] { return S(back); });
    }
    else if (f == HOTPF) {
        Bytes k = D(n, 8, n % 200);
        uint64_t c = safe_counter(a, k, n < 64 ? (uint64_t)1 << n : (uint64_t)n * 0x9E3779B97F4A7C15ull);
        U8 p = r.in(k);
        int d = (int)(n % 10) + 1;
        auto w = [=] { return std::to_string(hotp(a, k.data(), k.size(), c, d)); };
        r.step([=](Out &s) { uint64_t v = LIB(pgfe_hotp_generic(api::choice[a], p, k.size(), c, (uint8_t)d)); s += std::to_string(v); }, w);
        auto *o = r.hold<HOTP>();
        r.step([=](Out &) { o->make(p, k.size(), api::choice[a]); LIB((*o)->set_counter(c)); });
        r.step([=](Out &s) { std::string v = LIB((*o)->generate_str((uint8_t)d)); s += v; o->kill(); }, [=] { return padnum(hotp(a, k.data(), k.size(), c, d), d); });
    }
    else if (f == SHAKEF) {
        int al = 12 + a;
        Bytes b = D(n, 9, n % 190);
        U8 p = r.in(b);
        size_t on = (size_t)(n + 7) / 8;
        uint8_t *o = r.out(on);
        r.step([=](Out &s) { LIB(api::hash[al].encode(p, b.size(), o, (size_t)n)); s += S(o, on); }, [=] { return n ? dig(al, b, (size_t)n) : std::string(); });
    }
    else if (f == SEQ) {
        Bytes core = nonul(D(n, 10, n)), b = cat(cat(Bytes((size_t)n % 7, 0), core), Bytes((size_t)n % 5, 0));
        U8 p = r.in(b);
        auto *o = r.hold<SequentialData>();
        r.step([=](Out &) { o->make(p, b.size()); });
        r.step([=](Out &s) { std::string h = LIB((*o)->hex_str()); s += h; }, [=] { return hexs(b); });
        r.step([=](Out &s) { SequentialData x = LIB((*o)->trim_right()); s += S(x); }, [=] { return S(cat(Bytes((size_t)n % 7, 0), core)); });
        r.step([=](Out &s) { LIB((*o)->trim_()); s += S(**o); o->kill(); }, [=] { return S(core); });
    }
    else if (f == ENCODER) {
        Bytes b = D(n, 11, (n * 7) % 400);
        U8 p = r.in(b);
        auto *e = r.hold<HashEncoder>();
        size_t ds = digest_size[a], bytes = (size_t)(n + 7) / 8;
        r.step([=](Out &) { e->make(api::choice[a]); LIB((*e)->update(p, b.size())); });
        r.step([=](Out &s) { auto *d = LIB((*e)->get_digest((uint64_t)n)); s += S(*d); e->kill(); },
               [=] { return is_shake(a) ? dig(a, b, n ? (size_t)n : ds * 8) : dig(a, b, 0).substr(0, n && bytes < ds ? bytes : ds); });
    }
    else if (f == FILEH) {
        size_t ds = digest_size[a], bits = is_shake(a) ? ds * 8 : 0;
        auto *h = &api::hash[a];
        Bytes b = D(n, 12, n);
        U8 p = r.in(b);
        uint8_t *o = r.out(ds);
        static uint8_t empty[1];
        FILE *fl = b.empty() ? fopen("/dev/null", "rb") : fmemopen((void *)p, b.size(), "rb");
        r.cleanup.push_back([fl] { fclose(fl); });
        r.step([=](Out &s) { LIB(h->encode_f(fl, o, ds * 8)); s += S(o, ds); }, [=] { return dig(a, b, bits); });
    }
    else if (f == OTPSEC) otp_secret(r, a, n);
    else if (f == OVER) overload(r, a, n);
    else if (f == SHORT) short_texts(r, a, n);
}
inline std::string label(int f, int a, int64_t n) {
    if (f == PROGS) return mc::strf("%s, data %" PRId64, all()[(size_t)a].name.c_str(), n);
    if (f == OTPSEC || f == OVER || f == SHORT) return mc::strf("%s: %d, %" PRId64, fam_name[f], a, n);
    return mc::strf("%s: %s, %" PRId64, fam_name[f], f == BASE || f == BASETEXT ? enc_name[a] : f == SHAKEF ? alg_name[12 + a] : algs(f) > 1 ? alg_name[a] : "-", n);
}
struct Unit {
    int f, a;
    int64_t n;
    Out want;
    Unit(int f_, int a_, int64_t n_) : f(f_), a(a_), n(n_) {
        Rec r(f == PROGS ? (int)n : 0, true);
        build(r, f, a, n);
        want = r.want;
    }
    std::unique_ptr<Rec> instance() const {
        auto r = std::make_unique<Rec>(f == PROGS ? (int)n : 0, false);
        build(*r, f, a, n);
        return r;
    }
    void compare(const Out &got, const std::string &how) const {
        if (got == want) return;
        size_t i = 0, bar = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
        for (size_t j = 0; j < i; j++) bar += want[j] == '|';
        size_t from = i > 4 ? i - 4 : 0;
        mc::fail(mc::strf("%s%s: output differs at byte %zu (about step %zu): got %s want %s", label(f, a, n).c_str(), how.c_str(), i, bar, mc::hex(got.data() + from, got.size() - from, 24).c_str(),
                          mc::hex(want.data() + from, want.size() - from, 24).c_str()));
    }
};
// All lengths below `upto` of each family (scaled), the programs with `vars` data sets.
template <class F> void each(int vars, int upto, F f) {
    for (int p = 0; p < algs(PROGS); p++)
        for (int v = 0; v < vars; v++) f((int)PROGS, p, (int64_t)v);
    for (int fam = 1; fam < FAMILIES; fam++)
        for (int a = 0; a < algs(fam); a++) {
            int64_t top = fam == SHAKEF || fam == ENCODER ? upto * 8 : fam == FILEH ? upto * 3 : fam == SHORT ? short_count(a) : fam == OTPSEC && upto > 450 ? 450 : upto;
            for (int64_t n = 0; n < top; n += (fam == SHAKEF || fam == ENCODER) && n > 600 ? 13 : fam == FILEH && n > 20 && (n + 2) % 1024 > 4 ? 5 : (fam == OVER || fam == OTPSEC) && n > 20 ? 7 : 1) f(fam, a, n);
        }
}
inline void selfcheck() {
    hash_selfcheck();
    base_selfcheck();
    bf_selfcheck();
}
} // namespace units
