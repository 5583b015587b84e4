// C24: hex conversion of every byte and pair, every length; parsing, cleaning and measuring of every text up to a length
// over character classes and of every text of up to two (three) characters, with buffers of exactly the needed size.
#include "mc.hpp"
#include "api.hpp"
#include "libpgfe/sequential_data.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include "ref/hex.hpp"
#include "window.hpp"
using namespace ref;
using libpgfe::SequentialData;

static void text(const char *p, size_t n, bool object) {
    std::string s(p, n);
    static uint64_t &ex = mc::count("executions");
    ex++;
    Exact t((const uint8_t *)s.c_str(), n + 1), clean(n + 1, 0xCC);
    size_t cn = pgfe_hash_string_clean((const char *)t.p, (char *)clean.p);
    CHECK(cn <= n && strlen((const char *)clean.p) == cn, "pgfe_hash_string_clean(%s): returned %zu", mc::hex(p, n).c_str(), cn);
    std::string cleaned((const char *)clean.p, cn);
    bool x2 = n > 1 && (s[1] == 'x' || s[1] == 'X');
    std::string want = digits_of(x2 && s[0] == '0' ? s.substr(2) : s);
    if (x2 && s[0] != '0' && cleaned == digits_of(s.substr(2))) want = cleaned; // a digit other than 0 before x: either reading, but the same everywhere
    CHECK(cleaned == want, "pgfe_hash_string_clean(%s) = \"%s\", want \"%s\"", mc::hex(p, n).c_str(), cleaned.c_str(), want.c_str());
    Bytes b = bytes_of(want);
    mc::outcome(b.data(), b.size());
    size_t len = pgfe_hash_length((const char *)t.p);
    CHECK(len == b.size(), "pgfe_hash_length(%s) = %zu, want %zu", mc::hex(p, n).c_str(), len, b.size());
    Exact out(b.size(), 0xCC);
    size_t r = pgfe_hex_string_to_hash((const char *)t.p, out.p);
    CHECK(r == b.size() && (!r || !memcmp(out.p, b.data(), r)), "pgfe_hex_string_to_hash(%s): %zu bytes %s, want %zu bytes %s", mc::hex(p, n).c_str(), r, mc::hex(out.p, r < out.n ? r : out.n).c_str(),
          b.size(), mc::hex(b.data(), b.size()).c_str());
    CHECK(!memcmp(t.p, s.c_str(), n + 1), "a hex function changed its const text");
    Exact inplace((const uint8_t *)s.c_str(), n + 1);
    cn = pgfe_hash_string_clean_((char *)inplace.p);
    CHECK(cn == want.size() && !memcmp(inplace.p, want.c_str(), cn + 1), "pgfe_hash_string_clean_(%s): returned %zu, \"%s\", want \"%s\"", mc::hex(p, n).c_str(), cn, (const char *)inplace.p, want.c_str());
    if (object) {
        SequentialData *d = libpgfe::utils::sequential_data::from_hex_string((const char *)t.p);
        std::string copy = s;
        SequentialData *d2 = libpgfe::utils::sequential_data::from_hex_string(copy);
        bool ok = d->size() == b.size() && (b.empty() || !memcmp(d->data(), b.data(), b.size())) && *d == *d2;
        std::string got = mc::hex(d->data(), d->size());
        delete d;
        delete d2;
        CHECK(ok, "from_hex_string(%s): %s, want %s", mc::hex(p, n).c_str(), got.c_str(), mc::hex(b.data(), b.size()).c_str());
    }
}
static void bytes(const Bytes &b, bool print) {
    static uint64_t &ex = mc::count("executions");
    ex++;
    static const char dg[] = "0123456789abcdef";
    std::string want;
    for (uint8_t x : b) want += dg[x >> 4], want += dg[x & 15];
    mc::outcome(b.data(), b.size(), 1);
    Exact in(b.data(), b.size()), out(2 * b.size() + 1, 0xCC);
    size_t r = pgfe_hash_to_hex_string(in.p, in.n, (char *)out.p);
    CHECK(r == want.size() && !memcmp(out.p, want.c_str(), r + 1), "pgfe_hash_to_hex_string(%s): returned %zu, \"%.60s\"", mc::hex(b.data(), b.size()).c_str(), r, (const char *)out.p);
    Exact back(b.size(), 0xCC);
    r = pgfe_hex_string_to_hash((const char *)out.p, back.p);
    CHECK(r == b.size() && (!r || !memcmp(back.p, b.data(), r)), "hex of %s parsed back to %zu bytes %s", mc::hex(b.data(), b.size()).c_str(), r, mc::hex(back.p, r < back.n ? r : back.n).c_str());
    CHECK(pgfe_hash_length((const char *)out.p) == b.size(), "pgfe_hash_length of the hex of %zu bytes is %zu", b.size(), pgfe_hash_length((const char *)out.p));
    SequentialData sd(b.data(), b.size());
    CHECK(sd.hex_str() == want, "SequentialData(%s).hex_str() = \"%.60s\"", mc::hex(b.data(), b.size()).c_str(), sd.hex_str().c_str());
    for (int form = 0; form < 3; form++) { // the round trip through the three documented spellings
        std::string t = form == 0 ? "0x" + want : form == 1 ? "0X" + want : want + "h";
        Exact o2(b.size(), 0xCC);
        r = pgfe_hex_string_to_hash(t.c_str(), o2.p);
        CHECK(r == b.size() && (!r || !memcmp(o2.p, b.data(), r)), "\"%.60s\" parsed to %zu bytes", t.c_str(), r);
    }
    if (print) {
        char *buf = nullptr;
        size_t sz = 0;
        fflush(stdout);
        FILE *old = stdout;
        stdout = open_memstream(&buf, &sz);
        pgfe_print_hash(in.p, in.n);
        fclose(stdout);
        stdout = old;
        bool ok = std::string(buf, sz) == want;
        free(buf);
        CHECK(ok, "pgfe_print_hash(%s) printed something else", mc::hex(b.data(), b.size()).c_str());
    }
}
// One buffer whose contents change in one place between the calls.
static void reused(size_t n) {
    static const char dg[] = "0123456789abcdefABCDEF";
    Bytes b = pattern(4, n);
    std::string t;
    for (size_t i = 0; i < 2 * n; i++) t += dg[(i * 7 + 3) % 22];
    Exact in(b.data(), n), out(2 * n + 1, 0xCC), tx(2 * n + 1), clean(2 * n + 1), back(n);
    memcpy(tx.p, t.c_str(), 2 * n + 1);
    for (size_t i = 0; i <= 4 * n; i++) {
        if (i % 2) {
            in.p[i / 4] ^= (uint8_t)(1 << i / 2 % 8);
            tx.p[i / 2] = (uint8_t)(tx.p[i / 2] == '5' ? '6' : '5');
        }
        std::string want, digits = digits_of((const char *)tx.p);
        for (size_t j = 0; j < n; j++) want += dg[in.p[j] >> 4], want += dg[in.p[j] & 15];
        Bytes wb = bytes_of(digits);
        static uint64_t &ex = mc::count("executions");
        ex++;
        size_t r = pgfe_hash_to_hex_string(in.p, n, (char *)out.p);
        CHECK(r == 2 * n && !memcmp(out.p, want.c_str(), r + 1), "pgfe_hash_to_hex_string of %zu bytes in a buffer used before: \"%.60s\", want \"%.60s\"", n, (const char *)out.p, want.c_str());
        CHECK(pgfe_hash_length((const char *)tx.p) == wb.size(), "pgfe_hash_length of a text in a buffer used before");
        r = pgfe_hash_string_clean((const char *)tx.p, (char *)clean.p);
        CHECK(r == digits.size() && !memcmp(clean.p, digits.c_str(), r + 1), "pgfe_hash_string_clean of \"%.60s\" in a buffer used before: \"%.60s\"", (const char *)tx.p, (const char *)clean.p);
        r = pgfe_hex_string_to_hash((const char *)tx.p, back.p);
        CHECK(r == wb.size() && !memcmp(back.p, wb.data(), r), "pgfe_hex_string_to_hash of \"%.60s\" in a buffer used before: %s", (const char *)tx.p, mc::hex(back.p, r).c_str());
        SequentialData *d = libpgfe::utils::sequential_data::from_hex_string((const char *)tx.p);
        bool ok = d->size() == wb.size() && !memcmp(d->data(), wb.data(), wb.size());
        delete d;
        CHECK(ok, "from_hex_string of \"%.60s\" in a buffer used before", (const char *)tx.p);
        mc::outcome(out.p, 2 * n);
    }
}
static const char cls[] = "09aFxXh g\x80";
static const int NC = 10;
// kind 1: v = length, prefix of two classes.  kind 2: v = first character, length.  kind 3: v = length, pattern.
// kind 4: v = first byte: every pair of bytes.  kind 5: v = length: long texts with every character at every place
// kind 6: v = length, what else is in the text.  kind 7: v = number of digits: past 2^31 and 2^32.  kind 8: v = bytes
static void gigantic(size_t n, int f) {
    const size_t W = 4096 * 257;
    std::string d;
    for (size_t i = 0; i < W; i++) d += "0123456789abcdefABCDEF"[(i * 7 + i / 22) % 22];
    Window t((n / W + 1) * W, W), o((n / W + 1) * W, W);
    memcpy(t.p, d.data(), W);
    t.end_text(n);
    const char *text = (const char *)t.p;
    mc::count("executions")++;
    size_t r;
    if (f == 0) {
        r = pgfe_hash_length(text);
        CHECK(r == (n + 1) / 2, "pgfe_hash_length of a text of %zu digits is %zu", n, r);
        return mc::outcome(&r, sizeof r);
    }
    if (f == 1) {
        r = pgfe_hash_string_clean(text, (char *)o.p);
        CHECK(r == n, "pgfe_hash_string_clean of %zu digits returned %zu", n, r);
        size_t last = n % W; // the terminator's place in the window
        CHECK(!memcmp(o.p, d.data(), last) && !o.p[last] && !memcmp(o.p + last + 1, d.data() + last + 1, W - last - 1), "pgfe_hash_string_clean of %zu digits: wrong text", n);
        return mc::outcome(&r, sizeof r, 1);
    }
    // an odd count shifts every pair by one digit; the bytes repeat with the window either way
    size_t bn = (n + 1) / 2;
    Window out((bn / W + 1) * W, W);
    memset(out.p, 0, W);
    r = pgfe_hex_string_to_hash(text, out.p);
    CHECK(r == bn, "pgfe_hex_string_to_hash of %zu digits returned %zu, want %zu", n, r, bn);
    for (size_t i = bn - W; i < bn; i++) { // what was written last
        size_t at = n % 2 ? 2 * i - 1 : 2 * i;
        uint8_t w = (uint8_t)(hexval((unsigned char)d[at % W]) << 4 | hexval((unsigned char)d[(at + 1) % W]));
        CHECK(out.p[i % W] == w, "pgfe_hex_string_to_hash of %zu digits: byte %zu is %02x, want %02x", n, i, out.p[i % W], w);
    }
    mc::outcome(&r, sizeof r, 2);
}
static void gigantic_bytes(size_t n) {
    const size_t W = 4096 * 257;
    Bytes b = pattern(0, W);
    Window in((n / W + 1) * W, W), o((2 * n / W + 1) * W, W);
    memcpy(in.p, b.data(), W);
    size_t r = pgfe_hash_to_hex_string(in.p, n, (char *)o.p);
    mc::count("executions")++;
    mc::outcome(&r, sizeof r);
    CHECK(r == 2 * n && !o.p[r % W], "pgfe_hash_to_hex_string of %zu bytes returned %zu", n, r);
    for (size_t i = 2 * n - W + 1; i < 2 * n; i++) {
        uint8_t v = b[i / 2 % W], w = (uint8_t)"0123456789abcdef"[i % 2 ? v & 15 : v >> 4];
        CHECK(o.p[i % W] == w, "pgfe_hash_to_hex_string of %zu bytes: character %zu is %02x, want %02x", n, i, o.p[i % W], w);
    }
}
void run_case(const mc::Case &c) {
    char s[300];
    if (c.kind == 1) {
        int n = (int)c.v[0], fixed = n < 2 ? n : 2, idx[16] = {(int)c.v[1] / NC, (int)c.v[1] % NC};
        if (n == 1) idx[0] = (int)c.v[1];
        for (;;) {
            for (int i = 0; i < n; i++) s[i] = cls[idx[i]];
            s[n] = 0;
            text(s, (size_t)n, n < 5);
            int k = n - 1;
            while (k >= fixed && ++idx[k] == NC) idx[k--] = 0;
            if (k < fixed) break;
        }
    }
    else if (c.kind == 2) {
        int n = (int)c.v[1];
        for (int x = 1; x < (n == 2 ? 256 : 65536); x++) {
            if (n == 3 && !(x & 255)) continue;
            s[0] = (char)c.v[0];
            s[1] = (char)(n == 2 ? x : x >> 8);
            s[2] = n == 2 ? 0 : (char)x;
            s[n] = 0;
            text(s, strlen(s), n == 2);
        }
    }
    else if (c.kind == 3) bytes(pattern((int)c.v[1], (size_t)c.v[0]), true);
    else if (c.kind == 4)
        for (int x = 0; x < 256; x++) {
            bytes(Bytes{(uint8_t)c.v[0], (uint8_t)x}, x == 0);
            if (x == 0) bytes(Bytes{(uint8_t)c.v[0]}, true);
        }
    else if (c.kind == 6) {
        // digits with, in turn: nothing, a prefix, noise after every digit, noise at the ends, one run in the middle, lower
        // case, letters that are no digits, x further on, 0x in the middle
        size_t n = (size_t)c.v[0];
        std::string t, q;
        for (size_t i = 0; i < n; i++) t += "0123456789abcdefABCDEF"[(i * 7 + i / 22 + 1) % 22];
        switch (c.v[1]) {
        case 0: q = t; break;
        case 1: q = "0x" + t; break;
        case 2: for (char x : t) q += x, q += ' '; break;
        case 3: q = " :\x80-" + t + "\n \xff"; break;
        case 4: q = t.substr(0, n / 2) + std::string(1000, ' ') + t.substr(n / 2); break;
        case 5: q = "0X" + t + "h"; break;
        case 6: for (size_t i = 0; i < n; i++) { q += t[i]; if (i % 3 == 1) q += "ghZ@`/:"[i % 7]; } break;
        case 7: q = t + "x" + t; break;
        default: q = t + " 0x" + t; break;
        }
        text(q.c_str(), q.size(), true);
    }
    else if (c.kind == 9) reused((size_t)c.v[0]);
    else if (c.kind == 7) gigantic((size_t)c.v[0], (int)c.v[1]);
    else if (c.kind == 8) gigantic_bytes((size_t)c.v[0]);
    else {
        std::string t;
        for (int i = 0; i < c.v[0]; i++) t += "0123456789abcdefABCDEF"[(i * 7 + 1) % 22];
        for (int ch = 1; ch < 256; ch++)
            for (size_t at = 0; at <= t.size(); at++) {
                std::string q = t.substr(0, at) + (char)ch + t.substr(at);
                text(q.c_str(), q.size(), at % 4 == 0);
                q = "0x" + q + "h";
                text(q.c_str(), q.size(), false);
            }
    }
}
std::string describe(const mc::Case &c) {
    if (c.kind == 1) return mc::strf("every hex text of %" PRId64 " characters over %d classes, prefix %" PRId64, c.v[0], NC, c.v[1]);
    if (c.kind == 2) return mc::strf("every text of %" PRId64 " characters that begins with character %" PRId64, c.v[1], c.v[0]);
    if (c.kind == 3) return mc::strf("hex of %" PRId64 " bytes, pattern %" PRId64, c.v[0], c.v[1]);
    if (c.kind == 4) return mc::strf("hex of every pair of bytes that begins with %" PRId64, c.v[0]);
    if (c.kind == 6) return mc::strf("a hex text of %" PRId64 " digits, form %" PRId64, c.v[0], c.v[1]);
    if (c.kind == 9) return mc::strf("hex functions, one buffer of %" PRId64 " bytes changed between the calls", c.v[0]);
    if (c.kind == 7) return mc::strf("a hex text of %" PRId64 " digits in one call", c.v[0]);
    if (c.kind == 8) return mc::strf("hex of %" PRId64 " bytes in one call", c.v[0]);
    return mc::strf("a hex text of %" PRId64 " digits with every character at every place", c.v[0]);
}
void enumerate() {
    bool T = mc::thorough();
    const int64_t G = 1ll << 30;
    if (mc::part() == 2) {
        for (int64_t n : {G + 1, 2 * G + 3, 4 * G + 5}) if (T || n < 2 * G) mc::at(8, {n});
        for (int64_t n : {4 * G + 7, 8 * G + 6, 2 * G + 4, 2 * G + 3})
            for (int f = 0; f < 3; f++) if (T || n == 4 * G + 7) mc::at(7, {n, f});
        return;
    }
    for (int64_t n = 0; n <= (T ? 3000 : 700); n++) for (int f = 0; f < 9; f++) mc::at(6, {n, f});
    for (int k = 10; k <= (T ? 22 : 19); k++) for (int d = -3; d <= 3; d++) for (int f = 0; f < 9; f++) mc::at(6, {(1 << k) + d, f});
    for (int n : {1000, 5000, 100000}) for (int f = 0; f < 9; f++) mc::at(6, {n, f});
    for (int64_t n = 1; n <= (T ? 130 : 66); n++) mc::at(9, {n});
    mc::at(1, {0, 0});
    for (int n = 1; n <= (T ? 7 : 6); n++)
        for (int p = 0; p < (n == 1 ? NC : NC * NC); p++) mc::at(1, {n, p});
    for (int x = 1; x < 256; x++) mc::at(2, {x, 2});
    if (T) for (int x = 1; x < 256; x++) mc::at(2, {x, 3});
    for (int n = 0; n <= (T ? 600 : 150); n++)
        for (int p = 0; p < 5; p++) mc::at(3, {n, p});
    for (int k = 9; k <= (T ? 24 : 20); k++) for (int d = -2; d <= 2; d++) mc::at(3, {(1 << k) + d, 0});
    for (int n : {1000, 5000, 100000, 1000003}) mc::at(3, {n, 0});
    for (int x = 0; x < 256; x++) mc::at(4, {x});
    for (int n = 3; n <= (T ? 80 : 20); n++) mc::at(5, {n});
    mc::offsets([&] {
        for (int64_t n = 1; n <= (T ? 300 : 70); n++) {
            for (int f = 0; f < 9; f++) mc::at(6, {n, f});
            mc::at(3, {n, n % 5});
        }
    });
}
void selfcheck() {}
