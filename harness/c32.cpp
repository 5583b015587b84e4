// C32: live memory is the same before and after every history of creating, using, copying, moving, resetting and
// destroying objects (part 1), and data of many megabytes on a thread with a small stack (part 2).
#include "alloc.hpp"
#include <pthread.h>
#include <dirent.h>
#include "mc.hpp"
#include "units.hpp"
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
using namespace units;
static long held() { // bytes handed out by malloc, and with it by operator new
#if __has_feature(address_sanitizer)
    return (long)__sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
static int open_files() {
    int n = 0;
    for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1;
    return n;
}
// kind 1: one unit, complete, and abandoned after each of its steps.
static void unit(const mc::Case &c) {
    static uint64_t &ex = mc::count("executions"), &tr = mc::count("transitions"), &st = mc::count("states");
    Unit u((int)c.v[0], (int)c.v[1], c.v[2]);
    size_t n = u.instance()->steps.size();
    for (int warm = 0; warm < 2; warm++)
        for (size_t stop = 0; stop <= n; stop++) {
            long live = alloc::live, bytes = held();
            int files = open_files();
            {
                auto r = u.instance();
                Out got;
                for (size_t i = 0; i < stop; i++) r->steps[i](got), tr++;
            }
            ex++, st++;
            int f2 = open_files();
            CHECK(f2 == files, "%s, abandoned after %zu steps: %d open files, before %d", describe(c).c_str(), stop, f2, files);
            if (warm) CHECK(alloc::live == live && held() == bytes, "%s, abandoned after %zu of %zu steps: %ld blocks and %ld bytes leaked", describe(c).c_str(), stop, n, alloc::live - live, held() - bytes);
        }
}
// kind 2: every history of one slot that holds objects of one class: create, use, copy, move, assign, destroy directly or
// through each base class.
enum { MAKE, MAKE2, USE, USE_BIG, RESET, COPY, ASSIGN, BASE_DELETE, NLIFE };
static const char *const life_name[NLIFE] = {"create", "create another way", "use", "use on long data", "reset or configure", "replace by a copy", "copy back from a copy", "destroy through a base class"};
struct Any {
    virtual ~Any() = default;
    virtual void use(size_t n) = 0;
    virtual void reset() {}
    virtual bool copy() { return false; }
    virtual bool assign() { return false; }
    virtual void base_delete() = 0;
};
static Bytes bytes_of(size_t n) { return pattern(5, n); }
struct AHash : Any {
    HashEncoder *o;
    int bits = 0;
    AHash(int a, int) : o(new HashEncoder(api::choice[a])) {}
    ~AHash() override { delete o; }
    void use(size_t n) override {
        Bytes b = bytes_of(n);
        o->update(b.data(), b.size());
        o->get_digest((uint64_t)(bits += 56));
        o->reset();
        o->update((const char *)"abc");
        o->get_digest();
    }
    void reset() override { o->reset(); }
    void base_delete() override {
        AbstractEncoder *b = o;
        o = nullptr;
        delete b;
    }
};
struct AHmac : Any {
    HMACEncoder *o;
    AHmac(int a, int form) {
        Bytes k = bytes_of(300);
        std::string s = S(k);
        o = form ? new HMACEncoder(api::choice[a % 12], s) : new HMACEncoder(api::choice[a % 12], k.data(), k.size());
    }
    ~AHmac() override { delete o; }
    void use(size_t n) override {
        Bytes b = bytes_of(n);
        o->update(b.data(), b.size());
        o->get_digest();
    }
    void reset() override { o->reset(); }
    void base_delete() override {
        AbstractHashEncoder *b = o;
        o = nullptr;
        delete b;
    }
};
struct ABase : Any {
    AbstractBaseEncoding *o;
    ABase(int a, int) : o(bapi::make(a % 5).release()) {}
    ~ABase() override { delete o; }
    void use(size_t n) override {
        Bytes b = bytes_of(n);
        SequentialData d = o->decode(o->encode(b.data(), b.size()));
    }
    void base_delete() override {
        delete o;
        o = nullptr;
    }
};
struct AHotp : Any {
    HOTP *o;
    AHotp(int a, int form) {
        std::string s(60, 'k');
        SequentialData d(s);
        o = form ? new HOTP(d, api::choice[a % 12]) : new HOTP(s, api::choice[a % 12]);
    }
    ~AHotp() override { delete o; }
    void use(size_t n) override {
        o->generate();
        o->generate_str(8);
        Bytes b = bytes_of(n);
        o->set_secret(b.data(), b.size());
        o->set_secret_from_base32("GEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQ");
    }
    void reset() override { o->set_counter(4); }
    void base_delete() override {
        AbstractOTP *b = o;
        o = nullptr;
        delete b;
    }
};
struct ATotp : Any {
    TOTP *o;
    ATotp(int a, int form) {
        std::string s(60, 'k');
        o = form ? new TOTP(s, 30, api::choice[a % 12]) : new TOTP(s.c_str(), 30, api::choice[a % 12]);
    }
    ~ATotp() override { delete o; }
    void use(size_t n) override {
        o->generate();
        o->generate_str(8);
        Bytes b = bytes_of(n);
        o->set_secret(b.data(), b.size());
    }
    void reset() override { o->set_interval(60); }
    void base_delete() override {
        HOTP *b = o;
        o = nullptr;
        delete b;
    }
};
struct ABlow : Any {
    libpgfe::Blowfish *o;
    ABlow(int, int form) {
        std::string k(20, 'k');
        o = form ? new libpgfe::Blowfish(k) : new libpgfe::Blowfish(k.c_str());
    }
    ~ABlow() override { delete o; }
    void use(size_t n) override {
        Bytes b = bytes_of(n);
        SequentialData e = o->encrypt(b.data(), b.size()), d = o->decrypt(e);
    }
    bool copy() override {
        auto *c = new libpgfe::Blowfish(*o);
        delete o;
        o = c;
        return true;
    }
    bool assign() override {
        libpgfe::Blowfish c(*o);
        *o = c;
        return true;
    }
    void base_delete() override {
        AbstractSymmetricCrypter *b = o;
        o = nullptr;
        delete b;
    }
};
struct ASeq : Any {
    SequentialData *o;
    ASeq(int, int form) {
        Bytes b(50, 0);
        b[20] = 1;
        std::string h(100, '1');
        o = form ? utils::sequential_data::from_hex_string(h) : utils::to_sequential_data(b.data(), b.size());
    }
    ~ASeq() override { delete o; }
    void use(size_t n) override {
        Bytes b = bytes_of(n);
        o->append(b.data(), b.size());
        std::string s = o->hex_str() + o->to_str();
        SequentialData t = o->trim(), l = o->trim_left(), r = o->trim_right();
    }
    void reset() override { o->trim_(); }
    bool copy() override {
        auto *c = new SequentialData(*o);
        delete o;
        o = new SequentialData(std::move(*c));
        delete c;
        return true;
    }
    bool assign() override {
        SequentialData c(o);
        *(pgfe_seqdata_t *)o = c;
        return true;
    }
    void base_delete() override {
        delete o;
        o = nullptr;
    }
};
enum { K_HASH, K_HMAC, K_BASE, K_HOTP, K_TOTP, K_BLOW, K_SEQ, NCLASS };
static const char *const class_name[NCLASS] = {"HashEncoder", "HMACEncoder", "base codec", "HOTP", "TOTP", "Blowfish", "SequentialData"};
static Any *create(int k, int a, int form) {
    switch (k) {
    case K_HASH: return new AHash(a, form);
    case K_HMAC: return new AHmac(a, form);
    case K_BASE: return new ABase(a, form);
    case K_HOTP: return new AHotp(a, form);
    case K_TOTP: return new ATotp(a, form);
    case K_BLOW: return new ABlow(a, form);
    default: return new ASeq(a, form);
    }
}
static void history(int k, int a, const int *seq, int n) {
    std::unique_ptr<Any> o;
    for (int i = 0; i < n; i++) {
        mc::count("transitions")++;
        if (seq[i] <= MAKE2) o.reset(create(k, a, seq[i]));
        else if (!o) continue;
        else if (seq[i] == USE) o->use(21);
        else if (seq[i] == USE_BIG) o->use(600);
        else if (seq[i] == RESET) o->reset();
        else if (seq[i] == COPY) o->copy();
        else if (seq[i] == ASSIGN) o->assign();
        else o->base_delete(), o.reset();
    }
}
static void lives(int k, int a, int *seq, int n, int depth) {
    static uint64_t &ex = mc::count("executions"), &st = mc::count("states");
    st++;
    for (int warm = 0; warm < (n <= 2 ? 2 : 1); warm++) {
        long live = alloc::live, bytes = held();
        history(k, a, seq, n);
        ex++;
        if (warm || n > 2) {
            if (alloc::live == live && held() == bytes) continue;
            std::string how;
            for (int i = 0; i < n; i++) how += std::string(i ? ", " : "") + life_name[seq[i]];
            mc::fail(mc::strf("%s (%d): %s: %ld blocks and %ld bytes leaked", class_name[k], a, how.c_str(), alloc::live - live, held() - bytes));
        }
    }
    if (n == depth) return;
    for (int op = 0; op < NLIFE; op++) {
        if (op >= USE && (n == 0 || seq[n - 1] == BASE_DELETE)) continue;
        seq[n] = op;
        lives(k, a, seq, n + 1, depth);
    }
}
// kind 3: one operation on big data, on a thread whose stack is far smaller than the data.
static const size_t BIG = 24u << 20;
enum { L_HASH, L_HASHZ, L_MULTI, L_FILE, L_HMAC, L_HMACKEY, L_ENC, L_HENC, L_BENC, L_BDEC, L_OBJENC, L_OBJDEC, L_HEX, L_UNHEX, L_CLEAN, L_BLOW, L_BLOWOBJ, L_SEQ, L_HOTP, L_SHAKE, L_NOISE, L_B32SECRET, NLARGE };
static const char *const large_name[NLARGE] = {"hash function", "hash function on a C string", "hash of several buffers", "hash of a file", "hmac function", "hmac function with a long key", "HashEncoder overloads", "HMACEncoder overloads",
                                               "base encode", "base decode", "base object encode overloads", "base object decode overloads", "hex of bytes", "bytes of hex", "hex clean", "blowfish functions",
                                               "Blowfish overloads", "SequentialData", "HOTP with a long secret", "long SHAKE output", "decoding noise", "HOTP with a long base32 secret"};
static std::string big_fail;
static void same(const std::string &got, const std::string &want, const char *what) {
    if (got != want && big_fail.empty()) big_fail = mc::strf("%s: %zu bytes %s, want %zu bytes %s", what, got.size(), mc::hex(got.data(), got.size(), 16).c_str(), want.size(), mc::hex(want.data(), want.size(), 16).c_str());
}
struct Job {
    int what, a;
    Bytes d;
    std::string s, t; // the data as a string, and its text where one is decoded
};
static void large(Job &j, size_t n, bool want_run, std::vector<std::string> &want) {
    // Called twice: once on the main thread to compute what is expected, once on the small stack to do it.
    int a = j.a;
    size_t k = 0;
    auto expect = [&](const std::function<std::string()> &ref, const std::function<std::string()> &real) {
        if (!want_run) want.push_back(ref());
        else same(real(), want[k], large_name[j.what]);
        k++;
        mc::tick();
    };
    size_t ds = digest_size[a % 16], bits = is_shake(a % 16) ? ds * 8 : 0;
    Bytes out(128);
    auto hashed = [&] { return dig(a, j.d, bits); };
    switch (j.what) {
    case L_HASH: expect(hashed, [&] { api::hash[a].encode(j.d.data(), n, out.data(), ds * 8); return S(out.data(), ds); }); break;
    case L_HASHZ: expect(hashed, [&] { api::hash[a].encode_default((U8)j.s.c_str(), out.data(), ds * 8); return S(out.data(), ds); }); break;
    case L_MULTI:
        expect(hashed, [&] {
            const void *p[2] = {j.d.data(), j.d.data() + n / 2};
            size_t l[2] = {n / 2, n - n / 2};
            api::hash[a].multi(out.data(), ds * 8, 2, p, l);
            return S(out.data(), ds);
        });
        break;
    case L_FILE:
        expect(hashed, [&] {
            FILE *f = fmemopen(j.d.data(), n, "rb");
            api::hash[a].encode_f(f, out.data(), ds * 8);
            fclose(f);
            return S(out.data(), ds);
        });
        break;
    case L_HMAC: expect([&] { return S(hmac(a, "key", 3, j.d.data(), n)); }, [&] { api::hmac[a].oneshot((U8) "key", 3, j.d.data(), n, out.data()); return S(out.data(), ds); }); break;
    case L_HMACKEY: expect([&] { return S(hmac(a, j.d.data(), n, "abc", 3)); }, [&] { api::hmac[a].oneshot(j.d.data(), n, (U8) "abc", 3, out.data()); return S(out.data(), ds); }); break;
    case L_ENC: case L_HENC: {
        SequentialData sd(j.d.data(), n);
        for (int ov = 0; ov < 4; ov++)
            expect([&] { return j.what == L_ENC ? hashed() : S(hmac(a, "key", 3, j.d.data(), n)); }, [&] {
                std::unique_ptr<AbstractEncoder> e(j.what == L_ENC ? (AbstractEncoder *)new HashEncoder(api::choice[a]) : new HMACEncoder(api::choice[a], "key"));
                ov == 0 ? e->update(j.d.data(), n) : ov == 1 ? e->update(j.s.c_str()) : ov == 2 ? e->update(j.s) : e->update(sd);
                return S(*e->get_digest());
            });
        break;
    }
    case L_BENC: expect([&] { return j.t; }, [&] { std::string o(2 * n + 64, 0); o.resize(bapi::enc[a](j.d.data(), n, &o[0])); return o; }); break;
    case L_BDEC: expect([&] { return S(j.d); }, [&] { std::string o(n + 64, 0); o.resize(bapi::dec[a](j.t.c_str(), (pgfe_encode_t *)&o[0])); return o; }); break;
    case L_OBJENC: {
        SequentialData sd(j.d.data(), n);
        auto o = bapi::make(a);
        for (int ov = 0; ov < 4; ov++)
            expect([&] { return j.t; }, [&] { return ov == 0 ? o->encode(j.d.data(), n) : ov == 1 ? o->encode(j.s.c_str()) : ov == 2 ? o->encode((const std::string &)j.s) : o->encode((const SequentialData &)sd); });
        break;
    }
    case L_OBJDEC: {
        auto o = bapi::make(a);
        for (int ov = 0; ov < 2; ov++) expect([&] { return j.s; }, [&] { return S(ov ? o->decode(j.t.c_str()) : o->decode((const std::string &)j.t)); });
        break;
    }
    case L_HEX:
        expect([&] { return hexs(j.d); }, [&] { std::string o(2 * n + 1, 0); o.resize(pgfe_hash_to_hex_string(j.d.data(), n, &o[0])); return o; });
        expect([&] { return hexs(j.d); }, [&] { return SequentialData(j.d.data(), n).hex_str(); });
        break;
    case L_UNHEX:
        expect([&] { return S(j.d); }, [&] { std::string o(n + 1, 0); o.resize(pgfe_hex_string_to_hash(j.t.c_str(), (pgfe_encode_t *)&o[0])); return o; });
        expect([&] { return S(j.d); }, [&] { std::unique_ptr<SequentialData> d(utils::sequential_data::from_hex_string(j.t.c_str())); return S(*d); });
        expect([&] { return S(j.d); }, [&] { std::unique_ptr<SequentialData> d(utils::sequential_data::from_hex_string(j.t)); return S(*d); });
        expect([&] { return std::to_string(n); }, [&] { return std::to_string(pgfe_hash_length(j.t.c_str())); });
        break;
    case L_CLEAN:
        expect([&] { return j.t; }, [&] { std::string o(j.t.size() + 1, 0); o.resize(pgfe_hash_string_clean(j.t.c_str(), &o[0])); return o; });
        expect([&] { return j.t; }, [&] { std::string o = j.t; o.resize(pgfe_hash_string_clean_(&o[0])); return o; });
        break;
    case L_BLOW: {
        pgfe_blowfish_ctx c;
        pgfe_blowfish_init(&c, (U8) "key", 3);
        expect([&] { return S(ref::Blowfish((U8) "key", 3).ecb(true, j.d.data(), n)); }, [&] { std::string o(n + 8, 0); o.resize(pgfe_blowfish_encrypt(&c, j.d.data(), n, (pgfe_encode_t *)&o[0])); return o; });
        expect([&] { return S(ref::Blowfish((U8) "key", 3).ecb(false, j.d.data(), n)); }, [&] { std::string o(n + 8, 0); o.resize(pgfe_blowfish_decrypt(&c, j.d.data(), n, (pgfe_encode_t *)&o[0])); return o; });
        break;
    }
    case L_BLOWOBJ: {
        libpgfe::Blowfish o("key");
        SequentialData sd(j.d.data(), n);
        std::string once = want_run ? "" : S(ref::Blowfish((U8) "key", 3).ecb(true, j.d.data(), n)), back = want_run ? "" : S(ref::Blowfish((U8) "key", 3).ecb(false, j.d.data(), n));
        for (int ov = 0; ov < 4; ov++) {
            expect([&] { return once; }, [&] { return S(ov == 0 ? o.encrypt(j.d.data(), n) : ov == 1 ? o.encrypt(j.s.c_str()) : ov == 2 ? o.encrypt((const std::string &)j.s) : o.encrypt((const SequentialData &)sd)); });
            expect([&] { return back; }, [&] { return S(ov == 0 ? o.decrypt(j.d.data(), n) : ov == 1 ? o.decrypt(j.s.c_str()) : ov == 2 ? o.decrypt((const std::string &)j.s) : o.decrypt((const SequentialData &)sd)); });
        }
        break;
    }
    case L_SEQ: {
        std::string z = std::string(1 << 20, 0) + j.s + std::string(1 << 20, 0);
        expect([&] { return z; }, [&] { return SequentialData((U8)z.data(), z.size()).to_str(); });
        expect([&] { return j.s; }, [&] { SequentialData d((const std::string)z); return S(d.trim()); });
        expect([&] { return j.s; }, [&] { SequentialData d((U8)z.data(), z.size()); d.trim_left_(); d.trim_right_(); return S(d); });
        expect([&] { return j.s; }, [&] { return S(SequentialData(j.s.c_str())); });
        expect([&] { return j.s; }, [&] { std::unique_ptr<SequentialData> d(utils::to_sequential_data(j.s.c_str())), e(utils::to_sequential_data(j.s)), f(utils::to_sequential_data(j.d.data(), n)); return *d == *e && *e == *f ? S(*d) : "differ"; });
        break;
    }
    case L_HOTP:
        expect([&] { return std::to_string(hotp(a, j.d.data(), n, 7, 8)); }, [&] { return std::to_string(pgfe_hotp_generic(api::choice[a], j.d.data(), n, 7, 8)); });
        expect([&] { return std::to_string(hotp(a, j.d.data(), n, 7, 8)); }, [&] { HOTP h(j.s, api::choice[a]); h.set_counter(7); return std::to_string(h.generate(8)); });
        break;
    case L_B32SECRET:
        expect([&] { return std::to_string(hotp(a, j.d.data(), n, 7, 8)); }, [&] { HOTP h(api::choice[a]); h.set_secret_from_base32((const std::string &)j.t); h.set_counter(7); return std::to_string(h.generate(8)); });
        break;
    case L_SHAKE:
        expect([&] { return dig(12 + a, Bytes(3, 'x'), n * 8 - 3); }, [&] { std::string o(n, 0); api::hash[12 + a].encode((U8) "xxx", 3, (pgfe_encode_t *)&o[0], n * 8 - 3); return o; });
        expect([&] { return dig(12 + a, Bytes(3, 'x'), n * 8); }, [&] { HashEncoder e(api::choice[12 + a]); e.update("xxx"); return S(*e.get_digest(n * 8)); });
        break;
    case L_NOISE: {
        std::string t(n, '*');
        expect([&] { return std::string(); }, [&] { std::string o(64, 0); o.resize(bapi::dec[a](t.c_str(), (pgfe_encode_t *)&o[0])); return o; });
        expect([&] { return std::string(); }, [&] { return S(bapi::make(a)->decode(t.c_str())); });
        expect([&] { return std::string("0"); }, [&] { return std::to_string(pgfe_hash_length(t.c_str())); });
        break;
    }
    }
    mc::count("executions") += want_run ? k : 0;
}
static int large_algs(int what) {
    switch (what) {
    case L_HASH: case L_MULTI: case L_FILE: case L_ENC: case L_HASHZ: return 16;
    case L_HMAC: case L_HMACKEY: case L_HENC: case L_HOTP: return 12;
    case L_BENC: case L_BDEC: case L_OBJENC: case L_OBJDEC: case L_NOISE: return 5;
    case L_SHAKE: return 4;
    case L_B32SECRET: return 2;
    default: return 1;
    }
}
struct Go {
    Job *j;
    size_t n;
    std::vector<std::string> *want;
};
static void large_case(int what, int a, size_t n, size_t stack) {
    Job j;
    j.what = what, j.a = a;
    j.d = nonul(pattern(5, n));
    j.s = S(j.d);
    if (what == L_BENC || what == L_BDEC || what == L_OBJENC || what == L_OBJDEC) j.t = base_encode(a, j.d.data(), n);
    if (what == L_B32SECRET) j.t = base_encode(E32, j.d.data(), n);
    if (what == L_UNHEX || what == L_CLEAN) j.t = hexs(j.d);
    std::vector<std::string> want;
    large(j, n, false, want);
    big_fail.clear();
    Go go{&j, n, &want};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, stack);
    pthread_t th;
    if (pthread_create(&th, &at, [](void *x) -> void * {
            Go &g = *(Go *)x;
            try {
                large(*g.j, g.n, true, *g.want);
            }
            catch (const std::exception &e) {
                big_fail = std::string("exception: ") + e.what();
            }
            return nullptr;
        }, &go)) mc::fail("internal: no thread");
    pthread_join(th, nullptr);
    pthread_attr_destroy(&at);
    mc::count("states")++;
    mc::count("transitions") += want.size();
    for (auto &w : want) mc::outcome(w.data(), w.size() < 64 ? w.size() : 64, (uint64_t)what);
    CHECK(big_fail.empty(), "%zu bytes on a stack of %zu: %s", n, stack, big_fail.c_str());
}
void run_case(const mc::Case &c) {
    for (const char *k : {"executions", "transitions", "states"}) mc::count(k) += 0;
    int seq[12];
    if (c.kind == 1) unit(c);
    else if (c.kind == 2) {
        seq[0] = (int)c.v[2], seq[1] = (int)c.v[3];
        history((int)c.v[0], (int)c.v[1], seq, 2);
        lives((int)c.v[0], (int)c.v[1], seq, 2, (int)c.v[4]);
    }
    else large_case((int)c.v[0], (int)c.v[1], (size_t)c.v[2], (size_t)c.v[3]);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 1) return label((int)c.v[0], (int)c.v[1], c.v[2]);
    if (c.kind == 2) return mc::strf("%s (%" PRId64 "): every history of %" PRId64 " operations that begins with %s, %s", class_name[c.v[0]], c.v[1], c.v[4], life_name[c.v[2]], life_name[c.v[3]]);
    return mc::strf("%s (%" PRId64 "), %" PRId64 " bytes on a thread with a stack of %" PRId64, large_name[c.v[0]], c.v[1], c.v[2], c.v[3]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() != 1)
        for (int w = 0; w < NLARGE; w++)
            for (int a = 0; a < large_algs(w); a++)
                if (T || a == 0 || w == L_BENC || w == L_OBJENC || w == L_BDEC || w == L_OBJDEC || w == L_NOISE || ((w == L_HASH || w == L_ENC || w == L_HMACKEY) && a % 3 == 0)) {
                    mc::at(3, {w, a, (int64_t)(w == L_HASHZ || T ? BIG : BIG / 3), 1 << 20});
                }
    if (mc::part() == 2) return;
    each(T ? 6 : 3, T ? 700 : 200, [](int f, int a, int64_t n) { mc::at(1, {f, a, n}); });
    for (int k = 0; k < NCLASS; k++)
        for (int a = 0; a < (k == K_HASH ? 16 : k == K_BASE ? 5 : k == K_BLOW || k == K_SEQ ? 1 : 12); a++)
            for (int f = 0; f < 2; f++)
                for (int op = 0; op < NLIFE; op++) mc::at(2, {k, a, f, op, T ? 6 : a == 0 ? 5 : 4});
}
void selfcheck() { units::selfcheck(); }
