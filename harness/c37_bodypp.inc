/* C37: the same for the C++ interface. */
#define C37_T(x) c37_put(o, "sizeof " #x " %llu %llu\n", (unsigned long long)sizeof(x), (unsigned long long)alignof(x));
static void c37_seq(c37_out *o, const char *what, const libpgfe::SequentialData &d) {
    c37_hex(o, what, d.to_pgfe_seq(), d.length());
}
namespace {
// a consumer's own class on top of the abstract ones
struct C37Encoder : libpgfe::AbstractEncoder {
    size_t got = 0;
    void update(const pgfe_encode_t *, size_t n) override { got += n; }
};
struct C37Crypter : libpgfe::AbstractSymmetricCrypter {
    libpgfe::SequentialData encrypt(const pgfe_encode_t *d, size_t n) override { return libpgfe::SequentialData(d, n / 2); }
};
struct C37OTP : libpgfe::AbstractOTP {
    pgfe_otp_t generate(uint8_t d = 6) const override { return 40 + d; }
};
}
static void C37_NAMEPP(c37_out *o) {
    using namespace libpgfe;
    using libpgfe::SequentialData;
    C37_T(AbstractEncoder) C37_T(AbstractSymmetricCrypter) C37_T(AlgorithmSelectable) C37_T(AbstractBaseEncoding) C37_T(Base16) C37_T(Base32) C37_T(Base64) C37_T(Blowfish)
    C37_T(AbstractHashEncoder) C37_T(HashEncoder) C37_T(HMACEncoder) C37_T(AbstractOTP) C37_T(HOTP) C37_T(TOTP) C37_T(SequentialData) C37_T(NotInitializedException) C37_T(EncodingCompletedException)
    C37_T(base_short_size_t)
    const pgfe_algorithm_choice algs[] = {MD5, SHA1, SHA224, SHA256, SHA384, SHA512, SHA512_224, SHA512_256, SHA3_224, SHA3_256, SHA3_384, SHA3_512, RawSHAKE128, SHAKE128, RawSHAKE256, SHAKE256};
    c37_put(o, "maps %d %d %d\n", (int)pgfe_option_map.size(), (int)pgfe_digest_length.size(), (int)pgfe_block_length.size());
    for (pgfe_algorithm_choice a : algs) {
        HashEncoder e(a);
        AbstractHashEncoder &b = e;
        AbstractEncoder &ae = e;
        std::string text((const char *)c37_data(100), 100);
        SequentialData sd(c37_data(33), 33);
        c37_put(o, "alg %d %d %d %d %d\n", (int)a, (int)pgfe_digest_length.at(a), (int)pgfe_block_length.at(a), (int)b.digest_size(), (int)b.block_size());
        e.update(c37_data(50), 50), e.update("abc"), e.update(text), ae.update(sd);
        c37_seq(o, "digest", a >= RawSHAKE128 ? *e.get_digest(808) : *b.get_digest());
        e.reset(), e.update(sd);
        c37_seq(o, "digest", a >= RawSHAKE128 ? *e.get_digest(808) : *ae.get_digest());
        c37_put(o, "%d\n", (int)e.algorithm());
        if (a >= RawSHAKE128) continue;
        HMACEncoder h(a, sd);
        h.update(text), h.update("xyz");
        c37_seq(o, "hmac", *h.get_digest());
        HOTP p(c37_data(20), 20, a);
        p.set_counter(77);
        c37_put(o, "hotp %u %s\n", (unsigned)p.generate(8), p.generate_str().c_str());
        TOTP t(c37_data(20), 20, 2147483647, a);
        t.set_initial_time(5);
        c37_put(o, "totp %u %s %u\n", (unsigned)t.generate(8), t.generate_str().c_str(), (unsigned)t.interval());
    }
    for (auto &k : {"sha1", "SHA3_512", "RawSHAKE128", "nothing"}) {
        auto it = pgfe_option_map.find(k);
        c37_put(o, "name %s %d", k, it == pgfe_option_map.end() ? -1 : (int)it->second);
        try {
            c37_put(o, " %d\n", (int)_algstr(k));
        } catch (const std::exception &x) { c37_put(o, " thrown\n"); }
    }
    c37_put(o, "literal %d %d\n", (int)"sha256"_pgfe_alg, (int)"md5"_pgfe_alg);
    Base16 b16;
    Base32 b32, b32h(true);
    Base64 b64, b64u(true);
    AbstractBaseEncoding *codecs[] = {&b16, &b32, &b32h, &b64, &b64u};
    for (AbstractBaseEncoding *c : codecs)
        for (size_t n = 0; n < 300; n += 59) {
            std::string s = c->encode(c37_data(n), n);
            c37_put(o, "base %d %d %d %d %s\n", (int)c->unit_size(), (int)c->chunk_size(), (int)c->bit_size(), (int)c->alphabet_size(), s.c_str());
            c37_seq(o, "back", c->decode(s));
        }
    c37_put(o, "modes %d %d %d %d\n", b32.is_hex_mode(), b32h.is_hex_mode(), b64.is_url_safe_mode(), b64u.is_url_safe_mode());
    Blowfish f(c37_data(16), 16);
    SequentialData enc = f.encrypt(SequentialData(c37_data(30), 30));
    c37_seq(o, "blowfish", enc);
    c37_seq(o, "blowfish", f.decrypt(enc));
    SequentialData z((const pgfe_encode_t *)"\0\0abc\0", 6);
    c37_seq(o, "trim", z.trim());
    c37_put(o, "%s %s\n", z.hex_str().c_str(), SequentialData("text").to_str().c_str());
    std::ostringstream os;
    os << SequentialData("streamed") << z;
    c37_put(o, "%s\n", os.str().c_str());
    std::unique_ptr<SequentialData> u(utils::to_sequential_data("hello")), v(utils::sequential_data::from_hex_string("0badcafe"));
    c37_seq(o, "made", *u), c37_seq(o, "made", *v);
    C37Encoder ce;
    AbstractEncoder &ae = ce;
    ae.update("four"), ae.update(*u);
    C37Crypter cc;
    AbstractSymmetricCrypter &ac = cc;
    C37OTP co;
    AbstractOTP &ao = co;
    c37_put(o, "own %d %d %u %s\n", (int)ce.got, (int)ac.encrypt("abcdefgh").length(), (unsigned)ao.generate(2), ao.generate_str(2).c_str());
}
#undef C37_T
