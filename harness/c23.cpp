// C23: Blowfish buffers of every length through the functions and every object overload and key form; every sequence of
// calls up to a depth on one object.
#include "mc.hpp"
#include "phases.hpp"
#include "api.hpp"
#include "dirty.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "ref/blowfish.hpp"
#include "window.hpp"
using namespace ref;
using libpgfe::AbstractSymmetricCrypter;
using libpgfe::SequentialData;
typedef libpgfe::Blowfish Obj;

static Bytes nozero(Bytes b) {
    for (auto &x : b) if (!x) x = 'q';
    return b;
}
static Bytes of(const SequentialData &d) { return Bytes(d.data(), d.data() + d.size()); }
static Bytes key_of(int form, size_t n, int pat) {
    Bytes k = pattern(pat, n);
    if (form == 1) return nozero(k);
    if (n > 1) k[n / 2] = 0;
    return k;
}
static const char *const form_name[4] = {"pointer and length", "C string", "std::string", "SequentialData"};
static void with_object(int form, const Bytes &k, int fill, const std::function<void(Obj &)> &f) {
    dirty::fill_kind() = fill;
    Bytes z = k;
    if (form == 1) z.push_back(0);
    Exact x(z.data(), z.size());
    if (form == 0) {
        dirty::Object<Obj> o(fill, (const pgfe_encode_t *)x.p, k.size());
        memset(x.p, 0xEE, x.n);
        f(*o);
    }
    else if (form == 1) {
        dirty::Object<Obj> o(fill, (const char *)x.p);
        memset(x.p, 0xEE, x.n);
        f(*o);
    }
    else if (form == 2) {
        std::string s((const char *)k.data(), k.size());
        dirty::Object<Obj> o(fill, (const std::string &)s);
        f(*o);
    }
    else {
        SequentialData s(k.data(), k.size());
        dirty::Object<Obj> o(fill, (const SequentialData &)s);
        f(*o);
    }
}
// One object call through overload ov (0..3 direct, 4..7 through the base class).
static Bytes call(Obj &o, bool enc, int ov, const Bytes &d) {
    mc::count("transitions")++;
    AbstractSymmetricCrypter &b = o;
    Bytes z = d;
    z.push_back(0);
    Exact x(d.data(), d.size()), xz(z.data(), z.size());
    std::string s((const char *)d.data(), d.size());
    SequentialData sd(d.data(), d.size());
    switch (ov) {
    case 0: return of(enc ? o.encrypt(x.p, x.n) : o.decrypt(x.p, x.n));
    case 1: return of(enc ? o.encrypt((const char *)xz.p) : o.decrypt((const char *)xz.p));
    case 2: return of(enc ? o.encrypt((const std::string &)s) : o.decrypt((const std::string &)s));
    case 3: return of(enc ? o.encrypt((const SequentialData &)sd) : o.decrypt((const SequentialData &)sd));
    case 4: return of(enc ? b.encrypt(x.p, x.n) : b.decrypt(x.p, x.n));
    case 5: return of(enc ? b.encrypt((const char *)xz.p) : b.decrypt((const char *)xz.p));
    case 6: return of(enc ? b.encrypt((const std::string &)s) : b.decrypt((const std::string &)s));
    default: return of(enc ? b.encrypt((const SequentialData &)sd) : b.decrypt((const SequentialData &)sd));
    }
}
static void expect(const Bytes &got, const Bytes &want, const std::string &what) {
    mc::count("executions")++;
    mc::outcome(got.data(), got.size());
    CHECK(got == want, "%s: %zu bytes %s, want %zu bytes %s", what.c_str(), got.size(), mc::hex(got.data(), got.size()).c_str(), want.size(), mc::hex(want.data(), want.size()).c_str());
}
static void one_object(Obj &o, const Blowfish &r, int form, const Bytes &k, const Bytes &d, int ov, const std::string &how) {
    bool cs = ov % 4 == 1;
    Bytes in = cs ? nozero(d) : d, enc = r.ecb(true, in.data(), in.size()), padded = in;
    padded.resize(enc.size(), 0);
    std::string what = mc::strf("Blowfish object (%s key of %zu bytes), %soverload %d, %zu bytes", form_name[form], k.size(), how.c_str(), ov, in.size());
    expect(call(o, true, ov, in), enc, what + ", encrypt");
    if (cs && memchr(enc.data(), 0, enc.size())) ov++; // a ciphertext with zero bytes is no C string
    expect(call(o, false, ov, enc), padded, what + ", decrypt");
}
static const size_t seq_len[] = {0, 1, 7, 8, 9, 100};
static void dfs(Obj &o, const Blowfish &r, const Bytes &k, int depth, const std::string &how, int n) {
    mc::count("states")++;
    if (depth == 0) return;
    for (size_t l : seq_len)
        for (int enc = 0; enc < 2; enc++) {
            Bytes d = pattern(n + 4, l);
            int ov = (int)(l + (size_t)n) % 8;
            if (ov % 4 == 1) d = nozero(d);
            if (!enc) d.resize((l + 7) / 8 * 8, 3);
            if (!enc && ov % 4 == 1) d = nozero(d);
            expect(call(o, enc, ov, d), r.ecb(enc, d.data(), d.size()), how + mc::strf("%s of %zu bytes, overload %d", enc ? "encrypt" : "decrypt", d.size(), ov));
            dfs(o, r, k, depth - 1, how + mc::strf("%s(%zu), ", enc ? "encrypt" : "decrypt", d.size()), n + 1);
        }
}
// Sizes past 2^29, 2^31 and 2^32 bytes through the functions, and through the object.
static void gigantic(size_t n, bool enc, bool object) {
    const size_t W = 4096 * 257;
    Bytes k = pattern(0, 16), b = pattern(1, W);
    Blowfish r(k.data(), k.size());
    Bytes whole = r.ecb(enc, b.data(), W), last = r.ecb(enc, b.data(), n % W);
    size_t total = (n + 7) / 8 * 8;
    Window in((n / W + 1) * W, W);
    memcpy(in.p, b.data(), W);
    mc::count("executions")++;
    mc::outcome(&n, sizeof n, (uint64_t)(enc * 2 + object));
    const char *f = object ? enc ? "Blowfish::encrypt" : "Blowfish::decrypt" : enc ? "pgfe_blowfish_encrypt" : "pgfe_blowfish_decrypt";
    if (object) {
        libpgfe::Blowfish o(k.data(), k.size());
        SequentialData d = enc ? o.encrypt(in.p, n) : o.decrypt(in.p, n);
        CHECK(d.size() == total, "%s of %zu bytes gives %zu", f, n, d.size());
        for (size_t i = 0; i < n / W; i++) CHECK(!memcmp(d.data() + i * W, whole.data(), W), "%s of %zu bytes: wrong bytes after %zu", f, n, i * W);
        CHECK(!memcmp(d.data() + n / W * W, last.data(), n % W / 8 * 8), "%s of %zu bytes: wrong end", f, n);
        return;
    }
    struct pgfe_blowfish_ctx x;
    pgfe_blowfish_init(&x, k.data(), k.size());
    Window out((total / W + 1) * W, W);
    memset(out.p, 0, W);
    size_t got = enc ? pgfe_blowfish_encrypt(&x, in.p, n, out.p) : pgfe_blowfish_decrypt(&x, in.p, n, out.p);
    CHECK(got == total, "%s of %zu bytes returned %zu, want %zu", f, n, got, total);
    size_t end = n % W / 8 * 8, after = total % W;
    CHECK(!memcmp(out.p, last.data(), enc ? after : end) && !memcmp(out.p + after, whole.data() + after, W - after), "%s of %zu bytes: wrong bytes", f, n);
}
// One input buffer, one output buffer, one string, one SequentialData, one object: a byte changed between two calls.
static void reused(size_t n, size_t kn) {
    Bytes k = pattern(0, kn), d = pattern(4, n);
    Blowfish r(k.data(), kn);
    struct pgfe_blowfish_ctx x;
    pgfe_blowfish_init(&x, k.data(), kn);
    Obj o(k.data(), kn);
    Exact in(d.data(), n), out((n + 7) / 8 * 8);
    std::string s((const char *)d.data(), n);
    SequentialData sd(d.data(), n);
    for (size_t i = 0; i < 2 * n; i++) {
        if (i % 2) d[i / 2] ^= (uint8_t)(1 << i / 2 % 8);
        if (n) in.p[i / 2] = d[i / 2], s[i / 2] = (char)d[i / 2], sd[i / 2] = d[i / 2];
        for (int enc = 1; enc >= 0; enc--) {
            if (!enc && n % 8) break;
            Bytes want = r.ecb(enc, d.data(), n);
            size_t g = enc ? pgfe_blowfish_encrypt(&x, in.p, n, out.p) : pgfe_blowfish_decrypt(&x, in.p, n, out.p);
            expect(Bytes(out.p, out.p + g), want, mc::strf("%zu bytes in a buffer used before", n));
            for (int ov = 0; ov < 3; ov++)
                for (int twice = 0; twice < 2; twice++)
                    expect(ov == 0 ? of(enc ? o.encrypt(in.p, n) : o.decrypt(in.p, n)) : ov == 1 ? of(enc ? o.encrypt((const std::string &)s) : o.decrypt((const std::string &)s)) : of(enc ? o.encrypt((const SequentialData &)sd) : o.decrypt((const SequentialData &)sd)),
                           want, mc::strf("object, %zu bytes in a place used before, overload %d", n, ov));
        }
    }
}
std::string describe(const mc::Case &);
// kind 6: v = what, count: one object and one context, count calls
static void longrun(int what, uint64_t count) {
    Bytes k = pattern(0, 16), d = pattern(4, 17);
    Blowfish r(k.data(), k.size());
    Obj o(k.data(), k.size());
    struct pgfe_blowfish_ctx x;
    pgfe_blowfish_init(&x, k.data(), k.size());
    Bytes want[2][18], out(24);
    for (int enc = 0; enc < 2; enc++) for (size_t n = 0; n < 18; n++) if (enc || n % 8 == 0) want[enc][n] = r.ecb(enc, d.data(), n);
    for (uint64_t i = 1; i <= count; i++) {
        if (i % 4096 == 0) mc::tick();
        int enc = what == 2 ? (int)(i % 2) : what == 0;
        size_t n = enc ? 1 + i % 17 : i % 9 == 4 ? 16 : i % 31 == 5 ? 0 : 8;
        std::string how = mc::strf("%s of %zu bytes, call number %" PRIu64, enc ? "encrypt" : "decrypt", n, i);
        expect(of(enc ? o.encrypt(d.data(), n) : o.decrypt(d.data(), n)), want[enc][n], "object, " + how);
        size_t g = enc ? pgfe_blowfish_encrypt(&x, d.data(), n, out.data()) : pgfe_blowfish_decrypt(&x, d.data(), n, out.data());
        expect(Bytes(out.begin(), out.begin() + (long)g), want[enc][n], how);
        mc::count("transitions") += 2;
    }
}
// kind 8: v = large, small, times: calls of one object
static void phased(const mc::Case &c) {
    Bytes k = pattern(0, 16), d = pattern(4, 30000);
    Blowfish r(k.data(), k.size());
    std::map<std::pair<int, int64_t>, Bytes> want;
    for (int64_t mid : phases::MID) {
        Obj o(k.data(), k.size());
        std::string how = describe(c) + mc::strf(" (%" PRId64 ")", mid);
        auto call = [&](int64_t n, int enc) {
            if (!enc) n = n / 8 * 8;
            auto f = want.find({enc, n});
            if (f == want.end()) f = want.emplace(std::make_pair(enc, n), r.ecb(enc, d.data(), (size_t)n)).first;
            expect(of(enc ? o.encrypt(d.data(), (size_t)n) : o.decrypt(d.data(), (size_t)n)), f->second, how);
            mc::count("transitions")++;
        };
        call(c.v[0], 1), call(c.v[0], 0);
        for (int64_t i = 0; i < c.v[2]; i++) call(c.v[1], i % 2);
        call(mid, 1), call(c.v[1], 1), call(mid, 0), call(mid, 1);
    }
}
// kind 7: v = length, key length: copies of an object, and one assigned over another, work like it and on their own
template <class B> static void copied(size_t n, size_t kn) {
    if constexpr (std::is_copy_constructible<B>::value) {
        Bytes k = pattern(0, kn), k2 = pattern(4, kn % 56 + 1), d = pattern(5, n);
        Blowfish r(k.data(), kn), r2(k2.data(), k2.size());
        auto right = [&](B &o, const Blowfish &w, const char *how) {
            Bytes enc = w.ecb(true, d.data(), n), back = d;
            back.resize(enc.size(), 0);
            expect(of(o.encrypt(d.data(), n)), enc, mc::strf("%zu bytes with %s", n, how));
            expect(of(o.decrypt(enc.data(), enc.size())), back, mc::strf("%zu bytes back with %s", n, how));
            mc::count("transitions") += 2;
        };
        std::unique_ptr<B> o(new B(k.data(), kn));
        B fresh(*o), used((right(*o, r, "the original"), *o));
        right(fresh, r, "a copy of a fresh object");
        right(used, r, "a copy of a used object");
        if constexpr (std::is_copy_assignable<B>::value) {
            B a(k2.data(), k2.size());
            right(a, r2, "an object with another key");
            a = *o;
            right(a, r, "an object assigned from the original");
            *o = B(k2.data(), k2.size());
            right(*o, r2, "the original with another key");
        }
        o.reset();
        right(fresh, r, "a copy after the original is gone");
        right(used, r, "another copy after the original is gone");
    }
}
// kind 1: v = length, pattern, key length: C functions and every overload.  kind 2: v = key form, key length, fill.
// kind 3: v = depth, form, first length index: sequences
void run_case(const mc::Case &c) {
    if (c.kind == 4) return gigantic((size_t)c.v[0], c.v[1], c.v[2]);
    if (c.kind == 8) return phased(c);
    if (c.kind == 7) return copied<Obj>((size_t)c.v[0], (size_t)c.v[1]);
    if (c.kind == 6) return longrun((int)c.v[0], (uint64_t)c.v[1]);
    if (c.kind == 5) return reused((size_t)c.v[0], (size_t)c.v[1]);
    if (c.kind == 1) {
        Bytes k = pattern(0, (size_t)c.v[2]), d = pattern((int)c.v[1], (size_t)c.v[0]);
        Blowfish r(k.data(), k.size());
        api::Ctx cx(sizeof(struct pgfe_blowfish_ctx));
        auto *x = (struct pgfe_blowfish_ctx *)cx.p;
        pgfe_blowfish_init(x, k.data(), k.size());
        for (int fill : {0x00, 0xC3}) {
            Bytes want = r.ecb(true, d.data(), d.size()), padded = d;
            padded.resize(want.size(), 0);
            Exact in(d.data(), d.size()), out(want.size(), (uint8_t)fill), back(want.size(), (uint8_t)fill);
            size_t n = pgfe_blowfish_encrypt(x, in.p, in.n, out.p);
            std::string what = mc::strf("key of %zu bytes, %zu bytes of data", k.size(), d.size());
            CHECK(n == want.size(), "pgfe_blowfish_encrypt, %s: returned %zu, want %zu", what.c_str(), n, want.size());
            expect(Bytes(out.p, out.p + n), want, "pgfe_blowfish_encrypt, " + what);
            CHECK(!memcmp(in.p, d.data(), d.size()), "pgfe_blowfish_encrypt changed its input");
            n = pgfe_blowfish_decrypt(x, out.p, out.n, back.p);
            CHECK(n == want.size(), "pgfe_blowfish_decrypt, %s: returned %zu, want %zu", what.c_str(), n, want.size());
            expect(Bytes(back.p, back.p + n), padded, "pgfe_blowfish_decrypt, " + what);
            // data whose length is no multiple of the block: only safety, and agreement of function and object
            Exact part(out.p, d.size()), back2(want.size(), (uint8_t)fill);
            n = pgfe_blowfish_decrypt(x, part.p, part.n, back2.p);
            CHECK(n == want.size(), "pgfe_blowfish_decrypt of %zu bytes returned %zu", d.size(), n);
            with_object(0, k, fill, [&](Obj &o) { expect(of(o.decrypt(part.p, part.n)), Bytes(back2.p, back2.p + n), "object decrypt of an incomplete block, " + what); });
        }
        with_object((int)(c.v[0] % 4 == 1 ? 0 : c.v[0] % 4), k, 0xA5, [&](Obj &o) {
            for (int ov = 0; ov < 8; ov++) one_object(o, r, 0, k, d, ov, "");
        });
    }
    else if (c.kind == 2) {
        Bytes k = key_of((int)c.v[0], (size_t)c.v[1], 0);
        Blowfish r(k.data(), k.size());
        with_object((int)c.v[0], k, (int)c.v[2], [&](Obj &o) {
            for (size_t n : {0, 1, 8, 21}) one_object(o, r, (int)c.v[0], k, pattern(3, n), (int)n % 8, "");
        });
    }
    else {
        Bytes k = key_of((int)c.v[1], 16, 4);
        Blowfish r(k.data(), k.size());
        with_object((int)c.v[1], k, 0xA5, [&](Obj &o) {
            size_t l = seq_len[c.v[2]];
            Bytes d = pattern(1, l);
            expect(call(o, true, 0, d), r.ecb(true, d.data(), d.size()), "first encrypt");
            dfs(o, r, k, (int)c.v[0], mc::strf("encrypt(%zu), ", l), 0);
        });
    }
}
std::string describe(const mc::Case &c) {
    if (c.kind == 8) return phases::text("Blowfish object: calls", c.v[0], c.v[1], c.v[2]);
    if (c.kind == 7) return mc::strf("copies of a Blowfish object with a key of %" PRId64 " bytes, %" PRId64 " bytes of data", c.v[1], c.v[0]);
    if (c.kind == 1) return mc::strf("Blowfish buffer of %" PRId64 " bytes, pattern %" PRId64 ", key of %" PRId64 " bytes, functions and every overload", c.v[0], c.v[1], c.v[2]);
    if (c.kind == 2) return mc::strf("Blowfish object, %s key of %" PRId64 " bytes, memory filled with %" PRId64, form_name[c.v[0]], c.v[1], c.v[2]);
    if (c.kind == 4) return mc::strf("%s of %" PRId64 " bytes in one call%s", c.v[1] ? "encrypt" : "decrypt", c.v[0], c.v[2] ? ", object" : "");
    if (c.kind == 6) return mc::strf("Blowfish: %" PRId64 " calls of one object and one context: %s", c.v[1], c.v[0] == 0 ? "encrypt" : c.v[0] == 1 ? "decrypt" : "both");
    if (c.kind == 5) return mc::strf("Blowfish: one place of %" PRId64 " bytes, each byte changed in turn, key of %" PRId64 " bytes", c.v[0], c.v[1]);
    return mc::strf("Blowfish object (%s key): every sequence of %" PRId64 " calls after encrypt(%zu)", form_name[c.v[1]], c.v[0], seq_len[c.v[2]]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        const int64_t G = 1ll << 30;
        for (int64_t n : {4 * G + 5, 2 * G + 13, 4 * G - 3, 2 * G - 8, G / 2 + 1})
            for (int enc = 0; enc < 2; enc++) {
                if (T || (n == 4 * G + 5 && !enc)) mc::at(4, {n, enc, 0});
                if (T ? n < 3 * G || enc : n == (enc ? 4 * G + 5 : 2 * G + 13)) mc::at(4, {n, enc, 1});
            }
        return;
    }
    for (int n = 0; n <= (T ? 600 : 140); n++)
        for (int p = 0; p < (T ? 6 : 3); p++) mc::at(1, {n, p, (n + p) % 56 + 1});
    for (int n : {1023, 1024, 1025, 4096, 65533, 65536, 1000003}) mc::at(1, {n, 0, 16});
    for (int n = 1; n <= (T ? 200 : 66); n++) mc::at(5, {n, n % 56 + 1});
    for (int f = 0; f < 4; f++) {
        for (int kl = 1; kl <= 56; kl++)
            for (int fill : {0xA5, 0}) mc::at(2, {f, kl, fill});
        for (int l = 0; l < 6; l++) mc::at(3, {T ? 4 : 3, f, l});
    }
    mc::offsets([&] {
        for (int n = 1; n <= (T ? 300 : 70); n++) mc::at(1, {n, 0, (n * 5) % 56 + 1});
        for (int f = 0; f < 4; f++)
            for (int kl = 1; kl <= 56; kl += T || kl < 9 ? 1 : 5) mc::at(2, {f, kl, 0xA5});
    });
    phases::each(T, 300, [&](int64_t l, int64_t s, int64_t n) { mc::at(8, {l, s, n}); });
    for (int what = 0; what < 3; what++) mc::at(6, {what, T ? 1 << 22 : 132000});
    for (int n = 0; n <= (T ? 200 : 40); n++)
        for (int kl = 1; kl <= 56; kl += T ? 1 : 5) mc::at(7, {n, kl});
}
void selfcheck() { bf_selfcheck(); }
