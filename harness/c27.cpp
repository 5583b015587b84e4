// C27: every overload of every operation, on the object and through its base classes, against the reference on the same
// bytes (for the C string form: the bytes before the first NUL). Built with clang and with gcc.
#include <sstream>
#include "mc.hpp"
#include "units.hpp"
using namespace units;

static const int CONTENTS = 7;
static Bytes content(int c, int64_t n, int which = 0) {
    Bytes b = D(n, which, n);
    if (c == 0) return nonul(b);
    if (c == 1 && n) b[(size_t)n / 2] = 0;
    if (c == 2 && n) b[0] = b[(size_t)n - 1] = 0;
    if (c == 3) return Bytes((size_t)n, 0);
    if (c == 4) return Bytes((size_t)n, 0xFF);
    if (c == 5) for (auto &x : b) x |= 0x80;
    if (c == 6) {
        static const char h[] = "0123456789abcdefABCDEFxX h=";
        for (auto &x : b) x = (uint8_t)h[x % 27];
    }
    return b;
}
enum { PTR, CSTR, STR, SEQ, FORMS };
static const char *const form_name[] = {"pointer and length", "C string", "std::string", "SequentialData"};
// One piece of data in all its forms; what the C string form holds ends at the first NUL.
struct Arg {
    Bytes b, z;
    InBuf p, c;
    std::string s;
    SequentialData d;
    explicit Arg(const Bytes &b_) : b(b_), z(cut(b_)), p(b.data(), b.size()), c(S(z).c_str(), z.size() + 1), s(S(b)), d(b.data(), b.size()) {}
    static Bytes cut(const Bytes &b) {
        Bytes r;
        for (uint8_t x : b) {
            if (!x) break;
            r.push_back(x);
        }
        return r;
    }
    const Bytes &of(int f) const { return f == CSTR ? z : b; }
    const char *cs() const { return (const char *)c.p; }
    void unchanged(const char *what) const {
        CHECK(s == S(b), "%s: the std::string argument was changed", what);
        CHECK(S(d) == S(b), "%s: the SequentialData argument was changed", what);
    }
};
#define FORM(f, a, call)                                                                                               \
    switch (f) {                                                                                                       \
    case PTR: call(((U8)(a).p.p), (a).b.size()); break;                                                                \
    case CSTR: call((a).cs()); break;                                                                                  \
    case STR: call((a).s); break;                                                                                      \
    default: call((a).d); break;                                                                                       \
    }
static void same(const std::string &got, const std::string &want, const std::string &how) {
    mc::count("executions")++;
    mc::outcome(want.data(), want.size());
    CHECK(got == want, "%s: got %s, the others give %s", how.c_str(), mc::hex(got.data(), got.size(), 40).c_str(), mc::hex(want.data(), want.size(), 40).c_str());
}

enum { K_ENC = 1, K_HMAC, K_BASE, K_HOTP, K_BLOW, K_DATA };
static void enc_case(int a, int64_t n, int c) {
    Arg x(content(c, n)), y(content((c + 1) % CONTENTS, n / 3, 1));
    size_t ds = digest_size[a], bits = is_shake(a) ? ds * 8 : 0;
    for (int f = 0; f < FORMS; f++)
        for (int g = 0; g < FORMS; g++) {
            std::string want = dig(a, cat(x.of(f), y.of(g)), bits), how = mc::strf("HashEncoder(%s).update %s then %s", alg_name[a], form_name[f], form_name[g]);
            {
                HashEncoder e(api::choice[a]);
                FORM(f, x, e.update);
                FORM(g, y, e.update);
                same(S(*e.get_digest()), want, how);
                e.reset();
                FORM(f, x, e.update);
                FORM(g, y, e.update);
                same(S(*e.get_digest(0)), want, how + ", after reset, get_digest(0)");
            }
            {
                std::unique_ptr<AbstractEncoder> o(new HashEncoder(api::choice[a]));
                AbstractEncoder &e = *o;
                FORM(f, x, e.update);
                FORM(g, y, e.update);
                auto *d = e.get_digest();
                CHECK(d, "%s through AbstractEncoder: get_digest gives null", how.c_str());
                same(S(*d), want, how + " through AbstractEncoder");
                e.reset();
                FORM(g, y, e.update);
                d = e.get_digest();
                CHECK(d, "%s through AbstractEncoder: get_digest after reset gives null", how.c_str());
                same(S(*d), dig(a, y.of(g), bits), how + " through AbstractEncoder, after reset");
            }
            {
                std::unique_ptr<AbstractHashEncoder> o(new HashEncoder(api::choice[a]));
                AbstractHashEncoder &e = *o;
                FORM(f, x, e.update);
                FORM(g, y, e.update);
                same(S(*e.get_digest()), want, how + " through AbstractHashEncoder");
            }
        }
    x.unchanged("HashEncoder"), y.unchanged("HashEncoder");
    // the one-shot functions: length-carrying, and up to the first NUL
    Exact o(ds), o2(ds);
    api::hash[a].encode((U8)x.p.p, x.b.size(), o.p, ds * 8);
    same(S(o.p, ds), dig(a, x.b, bits), mc::strf("%s encode", alg_name[a]));
    api::hash[a].encode_default((U8)x.cs(), o2.p, ds * 8);
    same(S(o2.p, ds), dig(a, x.z, bits), mc::strf("%s encode_default", alg_name[a]));
}
static std::unique_ptr<HMACEncoder> hmac_of(int a, int f, Arg &k) {
    auto c = api::choice[a];
    switch (f) {
    case PTR: return std::make_unique<HMACEncoder>(c, (U8)k.p.p, k.b.size());
    case CSTR: return std::make_unique<HMACEncoder>(c, k.cs());
    case STR: return std::make_unique<HMACEncoder>(c, k.s);
    default: return std::make_unique<HMACEncoder>(c, k.d);
    }
}
static void hmac_case(int a, int64_t n, int c) {
    Arg k(content(c, n)), m(content((c + 1) % CONTENTS, n / 2 + 3, 1));
    for (int f = 0; f < FORMS; f++)
        for (int g = 0; g < FORMS; g++) {
            std::string want = S(hmac(a, k.of(f).data(), k.of(f).size(), m.of(g).data(), m.of(g).size())), how = mc::strf("HMACEncoder(%s) with a key as %s, data as %s", alg_name[a], form_name[f], form_name[g]);
            auto e = hmac_of(a, f, k);
            FORM(g, m, e->update);
            same(S(*e->get_digest()), want, how);
            std::unique_ptr<AbstractEncoder> b = hmac_of(a, f, k);
            FORM(g, m, b->update);
            auto *d = b->get_digest();
            CHECK(d, "%s through AbstractEncoder: get_digest gives null", how.c_str());
            same(S(*d), want, how + " through AbstractEncoder");
            std::unique_ptr<AbstractHashEncoder> h = hmac_of(a, f, k);
            FORM(g, m, h->update);
            same(S(*h->get_digest()), want, how + " through AbstractHashEncoder");
            same(mc::strf("%zu %zu", h->digest_size(), h->block_size()), mc::strf("%zu %zu", digest_size[a], block_size[a]), how + ": sizes");
        }
    k.unchanged("HMACEncoder"), m.unchanged("HMACEncoder");
}
static void base_case(int e, int64_t n, int c) {
    Arg x(content(c, n));
    auto o = bapi::make(e);
    Base16 b16;
    Base32 b32(e == 2);
    Base64 b64(e == 4);
    for (int f = 0; f < FORMS; f++)
        for (int w = 0; w < 2; w++) {
            std::string want = base_encode(e, x.of(f).data(), x.of(f).size()), how = mc::strf("Base%s %s: encode as %s", enc_name[e], w ? "object" : "base class", form_name[f]), got;
#define CALL(...) got = w ? (e == 0 ? b16.encode(__VA_ARGS__) : e < 3 ? b32.encode(__VA_ARGS__) : b64.encode(__VA_ARGS__)) : o->encode(__VA_ARGS__)
            FORM(f, x, CALL);
#undef CALL
            same(got, want, how);
            std::string plain = want.substr(0, want.find('='));
            for (const std::string &t : {want, plain}) {
                InBuf z(t.c_str(), t.size() + 1);
                const char *cs = (const char *)z.p;
                SequentialData d1 = w ? (e == 0 ? b16.decode(cs) : e < 3 ? b32.decode(cs) : b64.decode(cs)) : o->decode(cs);
                SequentialData d2 = w ? (e == 0 ? b16.decode(t) : e < 3 ? b32.decode(t) : b64.decode(t)) : o->decode(t);
                same(S(d1), S(x.of(f)), how + ", decode of a C string");
                same(S(d2), S(x.of(f)), how + ", decode of a std::string");
            }
        }
    std::string t = base_encode(e, x.b.data(), x.b.size());
    Exact o1(t.size() + 1), o2(bapi::dec_room(e, x.b.size()));
    size_t m = bapi::enc[e]((U8)x.p.p, x.b.size(), (char *)o1.p);
    same(S(o1.p, m), t, mc::strf("Base%s function", enc_name[e]));
    m = bapi::dec[e](t.c_str(), o2.p);
    same(S(o2.p, m), S(x.b), mc::strf("Base%s decode function", enc_name[e]));
    x.unchanged("codec");
    same(mc::strf("%d %d", b32.is_hex_mode(), b64.is_url_safe_mode()), mc::strf("%d %d", e == 2, e == 4), "mode accessors");
}
static std::unique_ptr<HOTP> otp_of(bool t, int a, int f, Arg &k) {
    auto c = api::choice[a];
    if (t) switch (f) {
        case PTR: return std::make_unique<TOTP>((U8)k.p.p, k.b.size(), 30, c);
        case CSTR: return std::make_unique<TOTP>(k.cs(), 30, c);
        case STR: return std::make_unique<TOTP>(k.s, 30, c);
        default: return std::make_unique<TOTP>(k.d, 30, c);
        }
    switch (f) {
    case PTR: return std::make_unique<HOTP>((U8)k.p.p, k.b.size(), c);
    case CSTR: return std::make_unique<HOTP>(k.cs(), c);
    case STR: return std::make_unique<HOTP>(k.s, c);
    default: return std::make_unique<HOTP>(k.d, c);
    }
}
static void otp_says(HOTP &o, bool t, int a, const Bytes &k, uint64_t ctr, const std::string &how) {
    AbstractOTP &b = o;
    TOTP *tp = t ? static_cast<TOTP *>(&o) : nullptr;
    for (int d : {6, 8, 1}) {
        int64_t w = hotp(a, k.data(), k.size(), ctr, d);
        if (w < 0) w = (int64_t)o.generate((uint8_t)d); // an MD5 window that leaves the digest: only agreement
        same(std::to_string(o.generate((uint8_t)d)), std::to_string(w), how + ", generate through HOTP");
        same(std::to_string(b.generate((uint8_t)d)), std::to_string(w), how + ", generate through AbstractOTP");
        same(o.generate_str((uint8_t)d), padnum(w, d), how + ", generate_str through HOTP");
        same(b.generate_str((uint8_t)d), padnum(w, d), how + ", generate_str through AbstractOTP");
        if (d == 6) {
            same(b.generate_str(), padnum(w, d), how + ", default digits through AbstractOTP");
            same(std::to_string(b.generate()), std::to_string(w), how + ", default digits through AbstractOTP");
            same(o.generate_str(), padnum(w, d), how + ", default digits");
        }
        if (tp) {
            same(std::to_string(tp->generate((uint8_t)d)), std::to_string(w), how + ", generate");
            same(tp->generate_str((uint8_t)d), padnum(w, d), how + ", generate_str");
        }
    }
}
static void hotp_case(int a, int64_t n, int c, bool t) {
    Arg k(content(c, n)), k2(content((c + 1) % CONTENTS, n / 2 + 1, 1));
    uint64_t ctr = t ? 1111111109 / 30 : 0x0102030405060708ull + (uint64_t)n;
    clk::now() = 1111111109;
    for (int f = 0; f < FORMS; f++) {
        auto o = otp_of(t, a, f, k);
        std::string how = mc::strf("%s(%s), secret as %s", t ? "TOTP" : "HOTP", alg_name[a], form_name[f]);
        if (!t) o->set_counter(ctr);
        otp_says(*o, t, a, k.of(f), ctr, how + " to the constructor");
        o = t ? std::unique_ptr<HOTP>(new TOTP(30, api::choice[a])) : std::make_unique<HOTP>(api::choice[a]);
        AbstractOTP &b = *o;
        if (!t) b.set_counter(ctr);
        FORM(f, k, o->set_secret);
        otp_says(*o, t, a, k.of(f), ctr, how + " to set_secret");
        FORM(f, k2, b.set_secret);
        otp_says(*o, t, a, k2.of(f), ctr, how + " to set_secret through AbstractOTP");
        if (t) {
            TOTP &tt = static_cast<TOTP &>(*o);
            FORM(f, k, tt.set_secret);
            otp_says(*o, t, a, k.of(f), ctr, how + " to TOTP::set_secret");
        }
    }
    for (int f = 0; f < 7; f++) {
        auto o = otp_of(t, a, PTR, k2);
        if (!t) o->set_counter(ctr);
        std::string s = base_encode(E32, k.b.data(), k.b.size(), f % 2);
        InBuf z(s.c_str(), s.size() + 1);
        Bytes want = k.b;
        switch (f) {
        case 0: o->set_secret_from_base32((const char *)z.p); break;
        case 1: o->set_secret_from_base32(s); break;
        case 2: o->set_secret((const char *)z.p, true); break;
        case 3: o->set_secret(s, true); break;
        case 4: o->set_secret((const char *)z.p, false), want = Bytes(s.begin(), s.end()); break;
        case 5: o->set_secret(s, false), want = Bytes(s.begin(), s.end()); break;
        default: {
            std::string low = s;
            for (auto &x : low) x = (char)tolower(x);
            o->set_secret_from_base32(low);
        }
        }
        otp_says(*o, t, a, want, ctr, mc::strf("%s(%s), base32 secret, form %d", t ? "TOTP" : "HOTP", alg_name[a], f));
    }
    k.unchanged("OTP"), k2.unchanged("OTP");
}
static void blow_case(int64_t kn, int64_t n, int c) {
    Arg k(content(c == 3 ? 1 : c, kn)), m(content((c + 1) % CONTENTS, n, 1));
    for (int f = 0; f < FORMS; f++) {
        if (k.of(f).empty()) continue; // the cipher has no empty key
        std::unique_ptr<libpgfe::Blowfish> o;
        switch (f) {
        case PTR: o.reset(new libpgfe::Blowfish((U8)k.p.p, k.b.size())); break;
        case CSTR: o.reset(new libpgfe::Blowfish(k.cs())); break;
        case STR: o.reset(new libpgfe::Blowfish(k.s)); break;
        default: o.reset(new libpgfe::Blowfish(k.d)); break;
        }
        AbstractSymmetricCrypter &b = *o;
        ref::Blowfish r(k.of(f).data(), k.of(f).size());
        for (int g = 0; g < FORMS; g++) {
            Bytes e = r.ecb(true, m.of(g).data(), m.of(g).size()), back = m.of(g);
            back.resize(e.size(), 0);
            std::string how = mc::strf("Blowfish, key as %s, data as %s", form_name[f], form_name[g]);
            std::string d1, d2;
#define CALL(...) d1 = S(o->encrypt(__VA_ARGS__)), d2 = S(b.encrypt(__VA_ARGS__))
            FORM(g, m, CALL);
#undef CALL
            same(d1, S(e), how + ", encrypt");
            same(d2, S(e), how + ", encrypt through the base class");
            Arg x(e);
            if (g == CSTR && x.z.size() % 8) continue; // cut inside a block
            Bytes plain = r.ecb(false, x.of(g).data(), x.of(g).size());
#define CALL(...) d1 = S(o->decrypt(__VA_ARGS__)), d2 = S(b.decrypt(__VA_ARGS__))
            FORM(g, x, CALL);
#undef CALL
            same(d1, S(plain), how + ", decrypt");
            same(d2, S(plain), how + ", decrypt through the base class");
            x.unchanged("Blowfish");
        }
    }
    k.unchanged("Blowfish"), m.unchanged("Blowfish");
}
static std::string streamed(const SequentialData &d) {
    std::ostringstream os;
    os << d;
    return os.str();
}
static void data_case(int64_t n, int c) {
    Arg x(content(c, n));
    std::string first;
    for (int f = 0; f < 8; f++) {
        std::unique_ptr<SequentialData> d;
        Bytes want = x.b;
        SequentialData tmp(x.d);
        switch (f) {
        case 0: d.reset(new SequentialData((U8)x.p.p, x.b.size())); break;
        case 1: d.reset(new SequentialData(x.cs())), want = x.z; break;
        case 2: d.reset(new SequentialData(x.s)); break;
        case 3: d.reset(new SequentialData(x.d)); break;
        case 4: d.reset(new SequentialData((const SequentialData *)&x.d)); break;
        case 5: d.reset(new SequentialData(std::move(tmp))); break;
        case 6: d.reset(utils::to_sequential_data((U8)x.p.p, x.b.size())); break;
        default: d.reset(utils::to_sequential_data(x.s)); break;
        }
        same(S(*d), S(want), mc::strf("SequentialData, form %d", f));
        size_t m = 12345;
        const pgfe_encode_t *p = d->to_pgfe_seq(m), *q = d->to_pgfe_seq();
        same(S(p, m), S(want), mc::strf("SequentialData, form %d, to_pgfe_seq(length)", f));
        same(S(q, m), S(want), mc::strf("SequentialData, form %d, to_pgfe_seq()", f));
        same(d->hex_str(), hexs(want), mc::strf("SequentialData, form %d, hex_str", f));
        same(streamed(*d), d->to_str(), mc::strf("SequentialData, form %d, operator<< and to_str", f));
        same(d->to_str(false), S(want), mc::strf("SequentialData, form %d, to_str(false)", f));
        SequentialData l = d->trim_left(), r = d->trim_right(), t = d->trim(), l2(*d), r2(*d), t2(*d);
        l2.trim_left_(), r2.trim_right_(), t2.trim_();
        same(S(l), S(l2), mc::strf("SequentialData, form %d, trim_left and trim_left_", f));
        same(S(r), S(r2), mc::strf("SequentialData, form %d, trim_right and trim_right_", f));
        same(S(t), S(t2), mc::strf("SequentialData, form %d, trim and trim_", f));
        size_t i = 0, j = want.size();
        while (i < j && !want[i]) i++;
        while (j > i && !want[j - 1]) j--;
        same(S(t), S(Bytes(want.begin() + (long)i, want.begin() + (long)j)), mc::strf("SequentialData, form %d, trim", f));
    }
    std::unique_ptr<SequentialData> z(utils::to_sequential_data(x.cs()));
    same(S(*z), S(x.z), "to_sequential_data of a C string");
    // hex text: function, C string and std::string forms
    std::string h = hexs(x.b), u = h;
    for (auto &ch : u) ch = (char)toupper(ch);
    if (c == 6) h = S(x.b); // text with hex digits, prefixes and noise
    for (std::string t : {h, u, "0x" + h}) {
        InBuf in(t.c_str(), t.size() + 1);
        Exact o(t.size() + 1);
        size_t m = pgfe_hex_string_to_hash((const char *)in.p, o.p);
        std::unique_ptr<SequentialData> d1(utils::sequential_data::from_hex_string((const char *)in.p)), d2(utils::sequential_data::from_hex_string(t));
        same(S(*d1), S(o.p, m), "from_hex_string of a C string and the function");
        same(S(*d2), S(o.p, m), "from_hex_string of a std::string and the function");
        same(std::to_string(pgfe_hash_length((const char *)in.p)), std::to_string(m), "pgfe_hash_length and the conversion");
        std::string c1(t.size() + 1, '#'), c2 = t;
        c2 += '\0';
        size_t m1 = pgfe_hash_string_clean(t.c_str(), &c1[0]), m2 = pgfe_hash_string_clean_(&c2[0]);
        same(std::string(c1.c_str()) + std::to_string(m1), std::string(c2.c_str()) + std::to_string(m2), "pgfe_hash_string_clean and _clean_");
    }
    x.unchanged("SequentialData");
}
void run_case(const mc::Case &c) {
    switch (c.kind) {
    case K_ENC: return enc_case((int)c.v[0], c.v[1], (int)c.v[2]);
    case K_HMAC: return hmac_case((int)c.v[0], c.v[1], (int)c.v[2]);
    case K_BASE: return base_case((int)c.v[0], c.v[1], (int)c.v[2]);
    case K_HOTP: return hotp_case((int)c.v[0], c.v[1], (int)c.v[2], c.v[3]);
    case K_BLOW: return blow_case(c.v[0], c.v[1], (int)c.v[2]);
    default: return data_case(c.v[1], (int)c.v[2]);
    }
}
std::string describe(const mc::Case &c) {
    static const char *const k[] = {"", "HashEncoder", "HMACEncoder", "codec", "OTP object", "Blowfish", "SequentialData and utilities"};
    return mc::strf("every overload of %s%s%s, length %" PRId64 ", contents %" PRId64, k[c.kind], c.kind == K_DATA ? "" : " ",
                    c.kind == K_BLOW ? mc::strf("key length %" PRId64, c.v[0]).c_str() : c.kind == K_BASE ? enc_name[c.v[0]] : c.kind == K_DATA ? "" : alg_name[c.v[0]], c.v[1], c.v[2]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int c = 0; c < CONTENTS; c++) {
        for (int a = 0; a < 16; a++)
            for (int64_t n = 0; n < (T ? 620 : 300); n += T || n < 20 || n % (int64_t)block_size[a] < 2 || n % (int64_t)block_size[a] > (int64_t)block_size[a] - 10 ? 1 : 5) mc::at(K_ENC, {a, n, c});
        for (int a = 0; a < 12; a++)
            for (int64_t n = 0; n < (T ? 420 : 200); n += T || n < 12 || n % (int64_t)block_size[a] < 2 || n % (int64_t)block_size[a] > (int64_t)block_size[a] - 3 ? 1 : 7) mc::at(K_HMAC, {a, n, c});
        for (int e = 0; e < ENC_COUNT; e++)
            for (int64_t n = 0; n < (T ? 1300 : 420); n++) mc::at(K_BASE, {e, n, c});
        for (int t = 0; t < 2; t++)
            for (int a = 0; a < 12; a++)
                for (int64_t n = 0; n < (T ? 300 : 140); n += T || n < 12 ? 1 : 3) mc::at(K_HOTP, {a, n, c, t});
        for (int64_t k = 1; k <= 56; k++)
            for (int64_t n = 0; n < (T ? 70 : 26); n += T || k % 8 == 0 ? 1 : 5) mc::at(K_BLOW, {k, n, c});
        for (int64_t n = 0; n < (T ? 3000 : 700); n++) mc::at(K_DATA, {0, n, c});
    }
}
void selfcheck() { units::selfcheck(); }
