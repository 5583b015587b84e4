// C13: every text up to a length over an alphabet of character classes, every text of up to two (three) arbitrary
// characters, and every single foreign character at every place of longer texts, decoded into a buffer of exactly the
// documented room, against the reference decoder.
#include "mc.hpp"
#include "baseapi.hpp"
using namespace ref;

static void one(int e, const char *s, size_t n, bool object) {
    Bytes want = base_decode(e, s);
    Exact text((const uint8_t *)s, n + 1);
    Exact out(bapi::dec_room(e, want.size()), 0xCC);
    size_t r = bapi::dec[e]((const char *)text.p, out.p);
    static uint64_t &ex = mc::count("executions");
    ex++;
    mc::outcome(want.data(), want.size(), (uint64_t)e);
    CHECK(r == want.size() && (r == 0 || !memcmp(out.p, want.data(), r)), "base%s decode of %s (hex of the text): %zu bytes %s, want %zu bytes %s", enc_name[e],
          mc::hex(s, n).c_str(), r, mc::hex(out.p, r < out.n ? r : out.n).c_str(), want.size(), mc::hex(want.data(), want.size()).c_str());
    if (object) {
        auto o = bapi::make(e);
        libpgfe::SequentialData d = o->decode((const char *)text.p);
        CHECK(d.size() == want.size() && (want.empty() || !memcmp(d.data(), want.data(), want.size())), "base%s object decode of %s (hex of the text): %zu bytes %s, want %zu bytes",
              enc_name[e], mc::hex(s, n).c_str(), d.size(), mc::hex(d.data(), d.size()).c_str(), want.size());
    }
}
// Character classes: smallest and largest value, a middle one (lower case where it has one), padding, noise below and
// above 0x80, and a letter that other encodings use but this one does not.
static const char *const classes[ENC_COUNT] = {"0Fa=\n\x80G", "A7n=\n\x80" "1", "0Vn=\n\xff" "W", "A/z=\n\xc3_", "A_z=\n\x80/"};
static const int NC = 7;
// kind 5: v = enc, length, form: long texts. kind 1: v = enc, length, index of the first class prefix.  kind 2: every two characters. kind 3: (thorough) three.
void run_case(const mc::Case &c) {
    int e = (int)c.v[0];
    char s[512];
    if (c.kind == 1) {
        int n = (int)c.v[1], fixed = n < 2 ? n : 2;
        int idx[32] = {0};
        idx[0] = (int)c.v[2] / NC;
        idx[1] = (int)c.v[2] % NC;
        if (n == 1) idx[0] = (int)c.v[2];
        for (;;) {
            for (int i = 0; i < n; i++) s[i] = classes[e][idx[i]];
            s[n] = 0;
            one(e, s, (size_t)n, n <= 4);
            int k = n - 1;
            while (k >= fixed && ++idx[k] == NC) idx[k--] = 0;
            if (k < fixed) break;
        }
    }
    else if (c.kind == 2 || c.kind == 3) {
        int n = c.kind == 2 ? 2 : 3;
        s[0] = (char)c.v[1];
        s[n] = 0;
        for (int x = 1; x < (n == 2 ? 256 : 65536); x++) {
            if (n == 3 && (x & 255) == 0) continue;
            s[1] = (char)(n == 2 ? x : x >> 8);
            s[2] = n == 2 ? 0 : (char)x;
            one(e, s, strlen(s), n == 2 && x % 16 == 0);
        }
    }
    else if (c.kind == 5) {
        size_t n = (size_t)c.v[1];
        std::string t, q;
        for (size_t i = 0; i < n; i++) t += enc_char(e, (int)((i * 7 + i / 61 + 3) % (size_t)(1 << enc_bits[e])));
        switch (c.v[2]) {
        case 0: q = t; break;
        case 1: for (size_t i = 0; i < n; i++) { q += t[i]; if (i % 76 == 75) q += "\r\n"; } break;          // lines
        case 2: for (char x : t) q += x, q += ' '; break;
        case 3: q = " \x80\n" + t + "\xff \t"; break;
        case 4: q = t.substr(0, n / 2) + std::string(1000, '\n') + t.substr(n / 2); break;
        case 5: q = t + "==" + t; break;                                                                       // ends at the padding
        case 6: for (size_t i = 0; i < n; i++) q += e < E64 && i % 2 ? (char)tolower(t[i]) : t[i]; break;
        case 7: for (size_t i = 0; i < n; i++) { q += t[i]; if (i % 5 == 2) q += (char)(128 + i % 128); } break; // bytes above 127
        default: q = t + "=" + std::string(300, ' ') + "===" + t; break;
        }
        one(e, q.c_str(), q.size(), true);
    }
    else { // kind 4: a valid text of v[1] characters with character v[2..] inserted at every place
        size_t n = (size_t)c.v[1];
        std::string t;
        for (size_t i = 0; i < n; i++) t += enc_char(e, (int)((i * 7 + 3) % (size_t)(1 << enc_bits[e])));
        for (int ch = 1; ch < 256; ch++)
            for (size_t at = 0; at <= n; at++) {
                std::string q = t.substr(0, at) + (char)ch + t.substr(at);
                one(e, q.c_str(), q.size(), (ch + (int)at) % 32 == 0);
            }
        // runs of noise, padding in every amount and place
        for (size_t at = 0; at <= n; at++)
            for (size_t k = 0; k <= 9; k++) {
                std::string q = t.substr(0, at) + std::string(k, '=') + t.substr(at);
                one(e, q.c_str(), q.size(), false);
                q = t.substr(0, at) + std::string(k * 5, ' ') + t.substr(at) + std::string(k, '\t');
                one(e, q.c_str(), q.size(), true);
            }
    }
}
std::string describe(const mc::Case &c) {
    const char *e = enc_name[c.v[0]];
    if (c.kind == 1) return mc::strf("base%s decode of every text of %" PRId64 " characters over %d classes, prefix %" PRId64, e, c.v[1], NC, c.v[2]);
    if (c.kind == 5) return mc::strf("base%s decode of a long text of %" PRId64 " letters, form %" PRId64, e, c.v[1], c.v[2]);
    if (c.kind == 4) return mc::strf("base%s decode of a text of %" PRId64 " characters with every character inserted at every place", e, c.v[1]);
    return mc::strf("base%s decode of every text of %d characters that begins with character %" PRId64, e, c.kind == 2 ? 2 : 3, c.v[1]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int e = 0; e < ENC_COUNT; e++) {
        int deep = T ? (e == E32 || e == E32HEX ? 9 : 8) : 7;
        for (int64_t n = 0; n <= (T ? 3000 : 700); n++) for (int f = 0; f < 9; f++) mc::at(5, {e, n, f});
        for (int k = 10; k <= (T ? 22 : 18); k++) for (int d = -3; d <= 3; d++) for (int f = 0; f < 9; f++) mc::at(5, {e, (1 << k) + d, f});
        for (int n : {1000, 5000, 100000}) for (int f = 0; f < 9; f++) mc::at(5, {e, n, f});
        mc::at(1, {e, 0, 0});
        for (int n = 1; n <= deep; n++)
            for (int p = 0; p < (n == 1 ? NC : NC * NC); p++) mc::at(1, {e, n, p});
        for (int x = 1; x < 256; x++) mc::at(2, {e, x});
        if (T) for (int x = 1; x < 256; x++) mc::at(3, {e, x});
        for (int n = 0; n <= (T ? 130 : 26); n++) mc::at(4, {e, n});
        for (int n : {63, 64, 65, 107, 108, 127, 128, 129, 200})
            if (!T || n > 130) mc::at(4, {e, n});
    }
    mc::offsets([&] {
        for (int e = 0; e < ENC_COUNT; e++)
            for (int64_t n = 0; n <= (T ? 300 : 70); n++) for (int f = 0; f < 9; f++) mc::at(5, {e, n, f});
    });
}
void selfcheck() { base_selfcheck(); }
