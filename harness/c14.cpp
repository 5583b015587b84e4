// C14: every sequence of encode and decode calls up to a depth on one codec object, with lengths around the sizes at
// which its buffers are kept, filled or replaced; every pair of lengths in a row; every overload.
#include "mc.hpp"
#include <cmath>
#include "baseapi.hpp"
#include "window.hpp"
using namespace ref;
using libpgfe::AbstractBaseEncoding;
using libpgfe::SequentialData;

static const std::string how_of(int e, const int *seq, int n);
struct How {
    int e;
    const int *seq;
    int n;
    const char *fixed = nullptr;
    std::string str() const { return fixed ? fixed : how_of(e, seq, n); }
};
static void encode(int e, AbstractBaseEncoding &o, const Bytes &b, int overload, const How &how) {
    mc::count("transitions")++;
    mc::count("executions")++;
    static std::map<std::pair<int, Bytes>, std::string> memo;
    if (memo.size() > 3000) memo.clear();
    auto it = memo.find({e, b});
    if (it == memo.end()) it = memo.emplace(std::make_pair(e, b), base_encode(e, b.data(), b.size())).first;
    const std::string &want = it->second;
    std::string got;
    if (overload == 1 && memchr(b.data(), 0, b.size())) overload = 2;
    if (overload == 0) {
        Exact x(b.data(), b.size());
        got = o.encode(x.p, x.n);
    }
    else if (overload == 1) {
        Bytes z = b;
        z.push_back(0);
        Exact x(z.data(), z.size());
        got = o.encode((const char *)x.p);
    }
    else if (overload == 2) { // one string and one SequentialData whose contents are replaced
        static std::string s;
        s.assign((const char *)b.data(), b.size());
        got = o.encode((const std::string &)s);
    }
    else {
        static SequentialData sd;
        sd.assign(b.data(), b.size());
        got = o.encode((const SequentialData &)sd);
    }
    mc::outcome(got.data(), got.size(), (uint64_t)e);
    CHECK(got == want, "base%s object, %s, then encode(%zu bytes, overload %d): got \"%.60s\" (%zu), want \"%.60s\" (%zu)", enc_name[e], how.str().c_str(), b.size(), overload, got.c_str(),
          got.size(), want.c_str(), want.size());
}
static void decode(int e, AbstractBaseEncoding &o, const std::string &t, int overload, const How &how) {
    mc::count("transitions")++;
    mc::count("executions")++;
    static std::map<std::pair<int, std::string>, Bytes> memo;
    if (memo.size() > 3000) memo.clear();
    auto it = memo.find({e, t});
    if (it == memo.end()) it = memo.emplace(std::make_pair(e, t), base_decode(e, t.c_str())).first;
    const Bytes &want = it->second;
    Exact x((const uint8_t *)t.c_str(), t.size() + 1);
    static std::string s;
    s = t;
    SequentialData got = overload % 2 ? o.decode(s) : o.decode((const char *)x.p);
    mc::outcome(got.data(), got.size(), (uint64_t)e + 9);
    CHECK(got.size() == want.size() && (want.empty() || !memcmp(got.data(), want.data(), want.size())), "base%s object, %s, then decode(%zu characters, overload %d): got %zu bytes %s, want %zu bytes %s",
          enc_name[e], how.str().c_str(), t.size(), overload % 2, got.size(), mc::hex(got.data(), got.size()).c_str(), want.size(), mc::hex(want.data(), want.size()).c_str());
}
static void sizes(int e, AbstractBaseEncoding &o) {
    CHECK(o.unit_size() == enc_unit[e] && o.chunk_size() == enc_chunk[e] && o.bit_size() == enc_bits[e] && o.alphabet_size() == 1 << enc_bits[e],
          "base%s object reports unit %d, chunk %d, bits %d, alphabet %d", enc_name[e], o.unit_size(), o.chunk_size(), o.bit_size(), o.alphabet_size());
}
// lengths at which the text (or the data) reaches the buffer sizes an object starts with, and beyond them
static std::vector<size_t> enc_lens_(int e) {
    size_t at127 = 0;
    while (base_encode(e, Bytes(at127 + 1, 7).data(), at127 + 1).size() <= 127) at127++;
    size_t x = (size_t)floor(127 / 1.2 * enc_bits[e] / 8);
    return {0, 1, 6, x, x + 1, at127, at127 + 1, 300};
}
static std::vector<size_t> dec_lens_(int e) {
    size_t at63 = (size_t)(63 * 8 / enc_bits[e]), x = (size_t)floor(64 / 1.2 * 8 / enc_bits[e]);
    return {0, 1, 8, x, x + 1, at63, at63 + 2, 500};
}
static const std::vector<size_t> &enc_lens(int e) {
    static std::vector<size_t> v[ENC_COUNT];
    if (v[e].empty()) v[e] = enc_lens_(e);
    return v[e];
}
static const std::vector<size_t> &dec_lens(int e) {
    static std::vector<size_t> v[ENC_COUNT];
    if (v[e].empty()) v[e] = dec_lens_(e);
    return v[e];
}
static std::string text_of(int e, int variant, size_t n) { // n characters of the alphabet, some noise in one variant
    std::string s;
    for (size_t i = 0; i < n; i++) s += variant == 2 && i % 9 == 4 ? '\n' : enc_char(e, (int)((i * 11 + (size_t)variant * 5) % (size_t)(1 << enc_bits[e])));
    if (variant == 1) for (size_t i = 0; i < n; i++) s[i] = enc_char(e, 0); // spells zero bytes
    return s;
}
static std::string op_text(int e, int op) {
    int ne = (int)enc_lens(e).size();
    return op < ne ? mc::strf("encode(%zu)", enc_lens(e)[op]) : mc::strf("decode(%zu)", dec_lens(e)[op - ne]);
}
static const std::string how_of(int e, const int *seq, int n) {
    std::string s = "fresh";
    for (int i = 0; i < n; i++) s += ", " + op_text(e, seq[i]);
    return s;
}
static void play(int e, const int *seq, int n) {
    auto o = bapi::make(e);
    auto &el = enc_lens(e), &dl = dec_lens(e);
    for (int i = 0; i < n; i++) {
        int op = seq[i];
        How how{e, seq, i};
        if (op < (int)el.size()) {
            Bytes b = pattern(i % 4, el[op]);
            if (i % 4 == 2) for (auto &x : b) if (!x) x = 1;
            encode(e, *o, b, (i + op) % 4, how);
        }
        else decode(e, *o, text_of(e, i % 3, dl[op - (int)el.size()]), i + op, how);
    }
    sizes(e, *o);
}
static void dfs(int e, int *seq, int n, int depth) {
    mc::count("states")++;
    if (n == depth) {
        play(e, seq, n);
        return;
    }
    int nops = (int)(enc_lens(e).size() + dec_lens(e).size());
    for (int op = 0; op < nops; op++) {
        seq[n] = op;
        dfs(e, seq, n + 1, depth);
    }
}
// Two calls of one length whose data differ in one byte (character) only, and the first again: nothing may be remembered.
static void similar(int e, size_t n, bool dec, bool all) {
    How how{e, nullptr, 0, dec ? "decode, then decode of a text that differs in one character, then the first again" : "encode, then encode of data that differ in one byte, then the first again"};
    auto o = bapi::make(e);
    Bytes b = pattern(5, n);
    for (auto &x : b) if (x >= 254 || !x) x = 7;
    std::string t = text_of(e, 0, n);
    for (size_t i = 0; i < n; i++) {
        if (!all && i > 2 && i + 3 < n && i != n / 2 && (i & (i - 1)) && ((i + 1) & i)) continue;
        mc::count("states")++;
        mc::tick();
        if (dec) {
            std::string u = t;
            u[i] = u[i] == enc_char(e, 3) ? enc_char(e, 4) : enc_char(e, 3);
            decode(e, *o, t, (int)i, how);
            decode(e, *o, u, (int)(i / 2), how);
            if (all) decode(e, *o, t, (int)(i / 4), how);
        }
        else {
            Bytes c = b;
            c[i] ^= 1;
            encode(e, *o, b, (int)(i % 4), how);
            encode(e, *o, c, (int)(i / 4 % 4), how);
            if (all) encode(e, *o, b, (int)(i / 16 % 4), how);
        }
    }
}
// kind 4: v = enc, what, count: one object, count encodes (0), decodes (1), or both in turn (2)
static void longrun(int e, int what, uint64_t count) {
    auto o = bapi::make(e);
    Bytes b[3] = {pattern(5, 4), pattern(5, 31), pattern(5, 0)};
    std::string t[3] = {text_of(e, 0, 8), text_of(e, 0, 31), ""};
    std::string how;
    for (uint64_t i = 1; i <= count; i++) {
        how = "call number " + std::to_string(i);
        int k = i % 7 == 3 ? 1 : i % 11 == 5 ? 2 : 0;
        if (i % 4096 == 0) mc::tick();
        if (what == 0 || (what == 2 && i % 2)) encode(e, *o, b[k], (int)(i % 4), How{e, nullptr, 0, how.c_str()});
        else decode(e, *o, t[k], (int)(i % 2), How{e, nullptr, 0, how.c_str()});
    }
}
// One large call, many of another size, then one of each size between: whatever a codec does about its buffers meanwhile.
static const size_t MIDS[] = {0, 1, 40, 80, 130, 520, 1100, 1500, 2100, 5000, 30000};
static void phases(int e, bool dec, size_t large, size_t small, size_t n) {
    static uint64_t &states = mc::count("states");
    Bytes bl = pattern(1, large), bs = pattern(0, small);
    std::string tl = text_of(e, 0, large), ts = text_of(e, 1, small);
    for (size_t mid : MIDS) {
        states++;
        auto o = bapi::make(e);
        std::string how = mc::strf("length %zu, then %zu times %zu, then %zu", large, n, small, mid);
        How h{e, nullptr, 0, how.c_str()};
        auto call = [&](const Bytes &b, const std::string &t, int form) {
            if (dec) decode(e, *o, t, form % 2, h);
            else encode(e, *o, b, form, h);
        };
        call(bl, tl, 0);
        for (size_t i = 0; i < n; i++) call(bs, ts, (int)(i % 4));
        Bytes bm = pattern(2, mid);
        std::string tm = text_of(e, 2, mid);
        call(bm, tm, 0), call(bs, ts, 2), call(bm, tm, 3), call(bl, tl, 1);
    }
}
// kind 6: v = enc, decode?, n: one call whose buffer, and whose result, is larger than 2^31 or 2^32, and a short one after it
static void giant(int e, bool dec, size_t n) {
    size_t u = (size_t)enc_unit[e], ch = (size_t)enc_chunk[e], period = 15 * 4096 * 16, tperiod = period / u * ch;
    Bytes b = pattern(0, period), tail = pattern(0, n % period);
    std::string t = base_encode(e, b.data(), period), end = base_encode(e, tail.data(), tail.size());
    auto o = bapi::make(e);
    size_t whole = n / period;
    mc::count("transitions") += 2, mc::count("states") += 2, mc::count("executions") += 2;
    if (dec) {
        Window text((whole + 2) * tperiod, tperiod);
        memcpy(text.p, t.data(), tperiod);
        if (mmap(text.p + whole * tperiod, tperiod, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
        memcpy(text.p + whole * tperiod, end.c_str(), end.size() + 1);
        SequentialData got = o->decode((const char *)text.p);
        CHECK(got.size() == n, "base%s object: decode of the text of %zu bytes: %zu bytes", enc_name[e], n, got.size());
        for (size_t i = 0; i < n; i += period) {
            size_t k = n - i < period ? n - i : period;
            CHECK(!memcmp(got.data() + i, b.data(), k), "base%s object: decode of the text of %zu bytes is wrong after byte %zu", enc_name[e], n, i);
        }
    }
    else {
        Window data((whole + 1) * period, period);
        memcpy(data.p, b.data(), period);
        std::string got = o->encode(data.p, n);
        CHECK(got.size() == whole * tperiod + end.size(), "base%s object: encode of %zu bytes: %zu characters, not %zu", enc_name[e], n, got.size(), whole * tperiod + end.size());
        for (size_t i = 0; i < whole; i++) CHECK(!memcmp(got.data() + i * tperiod, t.data(), tperiod), "base%s object: encode of %zu bytes is wrong after character %zu", enc_name[e], n, i * tperiod);
        CHECK(!memcmp(got.data() + whole * tperiod, end.data(), end.size()), "base%s object: encode of %zu bytes is wrong at the end", enc_name[e], n);
    }
    How h{e, nullptr, 0, "a call of more than 2^31 bytes"};
    encode(e, *o, pattern(1, 100), 0, h);
    decode(e, *o, text_of(e, 0, 100), 0, h);
    mc::outcome(&n, sizeof n, (uint64_t)e * 2 + dec);
}
// kind 1: v = enc, depth, first two ops.  kind 2: v = enc, first length, last second length, decode?
void run_case(const mc::Case &c) {
    int e = (int)c.v[0];
    if (c.kind == 1) {
        int seq[12] = {(int)c.v[2], (int)c.v[3]};
        dfs(e, seq, 2, (int)c.v[1]);
        return;
    }
    if (c.kind == 6) return giant(e, c.v[1], (size_t)c.v[2]);
    if (c.kind == 5) return phases(e, c.v[1], (size_t)c.v[2], (size_t)c.v[3], (size_t)c.v[4]);
    if (c.kind == 4) return longrun(e, (int)c.v[1], (uint64_t)c.v[2]);
    if (c.kind == 3) return similar(e, (size_t)c.v[1], c.v[2] != 0, c.v[1] < 300);
    size_t a = (size_t)c.v[1];
    for (size_t b = 0; b <= (size_t)c.v[2]; b++) {
        mc::count("states")++;
        auto o = bapi::make(e);
        std::string how = mc::strf("fresh, %s(%zu)", c.v[3] ? "decode" : "encode", a);
        if (c.v[3]) {
            decode(e, *o, text_of(e, 0, a), 0, How{e, nullptr, 0, "fresh"});
            decode(e, *o, text_of(e, 1, b), 1, How{e, nullptr, 0, how.c_str()});
            how += mc::strf(", decode(%zu)", b);
            decode(e, *o, text_of(e, 2, a), 0, How{e, nullptr, 0, how.c_str()});
        }
        else {
            encode(e, *o, pattern(1, a), 0, How{e, nullptr, 0, "fresh"});
            encode(e, *o, pattern(0, b), 2, How{e, nullptr, 0, how.c_str()});
            how += mc::strf(", encode(%zu)", b);
            encode(e, *o, pattern(2, a), 3, How{e, nullptr, 0, how.c_str()});
        }
    }
}
std::string describe(const mc::Case &c) {
    int e = (int)c.v[0];
    if (c.kind == 1) return mc::strf("base%s object: every sequence of %" PRId64 " calls that begins %s, %s", enc_name[e], c.v[1], op_text(e, (int)c.v[2]).c_str(), op_text(e, (int)c.v[3]).c_str());
    if (c.kind == 6) return mc::strf("base%s object: %s of %" PRId64 " bytes in one call", enc_name[e], c.v[1] ? "decode of the text" : "encode", c.v[2]);
    if (c.kind == 5) return mc::strf("base%s object: %s of %" PRId64 ", then %" PRId64 " times of %" PRId64 ", then of each length between", enc_name[e], c.v[1] ? "decode" : "encode", c.v[2], c.v[4], c.v[3]);
    if (c.kind == 4) return mc::strf("base%s object: %" PRId64 " %s", enc_name[e], c.v[2], c.v[1] == 0 ? "encodes" : c.v[1] == 1 ? "decodes" : "encodes and decodes in turn");
    if (c.kind == 3) return mc::strf("base%s object: %s of %" PRId64 " and of the same length with one byte changed, every place", enc_name[e], c.v[2] ? "decode" : "encode", c.v[1]);
    return mc::strf("base%s object: %s of length %" PRId64 ", then of every length to %" PRId64 ", then of %" PRId64 " again", enc_name[e], c.v[3] ? "decode" : "encode", c.v[1], c.v[2], c.v[1]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        for (int e = 0; e < ENC_COUNT; e++) {
            if (T || e == E16) mc::at(6, {e, 0, ((int64_t)1 << 29) * enc_bits[e] + 1}); // text past 2^32
            if (T || e == E64) mc::at(6, {e, 1, 3600000001}); // buffers past 2^32
            if (T) mc::at(6, {e, 0, ((int64_t)1 << 32) + 7});
            if (T && e == E64) mc::at(6, {e, 1, ((int64_t)1 << 32) + 7});
        }
        return;
    }
    for (int e = 0; e < ENC_COUNT; e++)
        for (int d = 0; d < 2; d++) {
            for (int n = 1; n <= (T ? 299 : 150); n++) mc::at(3, {e, n, d});
            for (int n : {300, 512, 1000, 1024, 4095, 4096, 4097, 5000, 65535, 65536, 65537}) mc::at(3, {e, n, d});
        }
    for (int e = 0; e < ENC_COUNT; e++) {
        int nops = (int)(enc_lens(e).size() + dec_lens(e).size());
        for (int a = 0; a < nops; a++)
            for (int b = 0; b < nops; b++) mc::at(1, {e, T ? 5 : 4, a, b});
        for (int a = 0; a <= (T ? 400 : 170); a++)
            for (int d = 0; d < 2; d++) mc::at(2, {e, a, T ? 400 : 170, d});
    }
    mc::offsets([&] {
        for (int e = 0; e < ENC_COUNT; e++)
            for (int d = 0; d < 2; d++)
                for (int n = 1; n <= (T ? 150 : 40); n++) mc::at(3, {e, n, d});
    });
    for (int e = 0; e < ENC_COUNT; e++)
        for (int d = 0; d < 2; d++)
            for (int l : {200, 1200, 3000, 20000})
                for (int m : {0, 3, 20, 70})
                    for (int n : {2, 3, 4, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 255, 256, 257, 300, 500, 512, 1000, 1024})
                        if (T || (n <= 300 ? 1 : l == 3000 && m == 3)) mc::at(5, {e, d, l, m, n});
    for (int e = 0; e < ENC_COUNT; e++)
        for (int what = 0; what < 3; what++) mc::at(4, {e, what, (T ? 1 << 20 : 66000) * (what == 2 ? 2 : 1)});
}
void selfcheck() { base_selfcheck(); }
