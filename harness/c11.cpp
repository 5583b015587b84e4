// C11: the encoders against the reference text: every byte string of up to 3 bytes, every value of every pair of
// neighbouring bytes at every place of a unit, every pair of places with boundary values, every length.
#include "mc.hpp"
#include "baseapi.hpp"
#include "window.hpp"
using namespace ref;

static void one(int e, const uint8_t *p, size_t n, bool object) {
    std::string want = base_encode(e, p, n);
    Exact in(p, n);
    Exact out(want.size() + 1, 0xCC);
    size_t r = bapi::enc[e](in.p, n, (char *)out.p);
    mc::count("executions")++;
    mc::outcome(want.data(), want.size(), (uint64_t)e);
    CHECK(r == want.size(), "base%s of %zu bytes %s: returned %zu, want %zu", enc_name[e], n, mc::hex(p, n).c_str(), r, want.size());
    CHECK(!memcmp(out.p, want.c_str(), want.size() + 1), "base%s of %zu bytes %s: text \"%.80s\" (or its terminator) differs from \"%.80s\"", enc_name[e], n,
          mc::hex(p, n).c_str(), std::string((const char *)out.p, want.size()).c_str(), want.c_str());
    if (object) {
        std::string s = bapi::make(e)->encode(in.p, n);
        CHECK(s == want, "base%s object, %zu bytes %s: \"%.80s\" differs from \"%.80s\"", enc_name[e], n, mc::hex(p, n).c_str(), s.c_str(), want.c_str());
    }
}
// The same without exact-size heap copies, for the bulk enumerations of part 2.
static void fast(int e, const uint8_t *p, size_t n) {
    static char out[4096];
    char want[4096];
    size_t w = 0;
    uint64_t acc = 0;
    int have = 0, b = enc_bits[e];
    for (size_t i = 0; i < n; i++) {
        acc = (acc << 8) | p[i];
        have += 8;
        while (have >= b) {
            want[w++] = enc_char(e, (int)((acc >> (have - b)) & (uint64_t)((1 << b) - 1)));
            have -= b;
        }
    }
    if (have) want[w++] = enc_char(e, (int)((acc << (b - have)) & (uint64_t)((1 << b) - 1)));
    while (w % (size_t)enc_chunk[e]) want[w++] = '=';
    size_t r = bapi::enc[e](p, n, out);
    if (r != w || memcmp(out, want, w) || out[w]) {
        mc::fail(mc::strf("base%s of %zu bytes %s: got \"%.*s\" (returned %zu), want \"%.*s\"", enc_name[e], n, mc::hex(p, n).c_str(), (int)r, out, r, (int)w, want));
    }
}
static const uint8_t edge[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 127, 128, 129, 192, 224, 240, 248, 252, 254, 255};
void run_case(const mc::Case &c) {
    int e = (int)c.v[0];
    if (c.kind == 1) { // every string of n <= 2 bytes
        uint8_t b[2];
        int n = (int)c.v[1];
        for (int x = 0; x < (n == 0 ? 1 : n == 1 ? 256 : 65536); x++) {
            b[0] = (uint8_t)(n == 2 ? x >> 8 : x);
            b[1] = (uint8_t)x;
            one(e, b, (size_t)n, n < 2);
        }
    }
    else if (c.kind == 2) { // every 3-byte string with a given first byte
        uint64_t k = 0;
        uint8_t b[3] = {(uint8_t)c.v[1]};
        for (int x = 0; x < 65536; x++, k++) {
            b[1] = (uint8_t)(x >> 8);
            b[2] = (uint8_t)x;
            fast(e, b, 3);
        }
        mc::count("executions") += k;
        mc::outcome(b, 1, 77 + (uint64_t)e);
    }
    else if (c.kind == 3) { // every value of the bytes at pos and pos+1 in a string of n bytes over a background
        uint64_t k = 0;
        size_t n = (size_t)c.v[1], pos = (size_t)c.v[2];
        Bytes b(n, (uint8_t)c.v[3]);
        for (int x = 0; x < 65536; x++, k++) {
            b[pos] = (uint8_t)(x >> 8);
            b[pos + 1] = (uint8_t)x;
            fast(e, b.data(), n);
        }
        mc::count("executions") += k;
        mc::outcome(b.data(), n, 99 + (uint64_t)e);
    }
    else if (c.kind == 4) { // every pair of places with boundary values
        size_t n = (size_t)c.v[1];
        for (size_t i = 0; i < n; i++)
            for (size_t j = i; j < n; j++)
                for (uint8_t x : edge)
                    for (uint8_t y : edge) {
                        if (i == j && x != y) continue;
                        Bytes b(n, (uint8_t)c.v[2]);
                        b[i] = x;
                        b[j] = y;
                        fast(e, b.data(), n);
                        mc::count("executions")++;
                    }
        mc::outcome(&n, sizeof n, 5 + (uint64_t)e);
    }
    else if (c.kind == 5) { // every length, several contents
        Bytes b = pattern((int)c.v[2], (size_t)c.v[1]);
        one(e, b.data(), b.size(), true);
    }
    else if (c.kind == 7) { // long data through the function and every overload of the object
        Bytes b = pattern(0, (size_t)c.v[1]);
        std::string want = base_encode(e, b.data(), b.size());
        {
            std::vector<char> out(want.size() + 1, 'x');
            size_t r = bapi::enc[e](b.data(), b.size(), out.data());
            CHECK(r == want.size() && !memcmp(out.data(), want.c_str(), r + 1), "base%s of %zu bytes: returned %zu, want %zu", enc_name[e], b.size(), r, want.size());
        }
        auto o = bapi::make(e);
        for (int ov = 0; ov < 4; ov++) {
            mc::tick();
            mc::count("executions")++;
            Bytes d = b;
            if (ov == 1) for (auto &x : d) if (!x) x = 1;
            if (ov == 1) want = base_encode(e, d.data(), d.size());
            std::string s;
            if (ov == 0) s = o->encode(d.data(), d.size());
            else if (ov == 1) d.push_back(0), s = o->encode((const char *)d.data());
            else if (ov == 2) s = o->encode(std::string((const char *)d.data(), d.size()));
            else s = o->encode(libpgfe::SequentialData(d.data(), d.size()));
            size_t i = 0;
            while (i < s.size() && i < want.size() && s[i] == want[i]) i++;
            CHECK(s == want, "base%s object, %zu bytes, overload %d: %zu characters, want %zu; first difference at %zu", enc_name[e], b.size(), ov, s.size(), want.size(), i);
            if (ov == 1) want = base_encode(e, b.data(), b.size());
        }
        mc::outcome(&c.v[1], 8, (uint64_t)e);
    }
    else { // a huge input: the text is periodic, so input and output windows repeat
        size_t period = 15 * 4096 * 16, n = (size_t)c.v[1], u = (size_t)enc_unit[e], ch = (size_t)enc_chunk[e];
        size_t operiod = period / u * ch;
        Window in(n + period, period);
        Bytes b = pattern(0, period);
        memcpy(in.p, b.data(), period);
        size_t total = (n + u - 1) / u * ch;
        Window out(total + 1 + operiod, operiod);
        memset(out.p, 0, operiod);
        // run in the background of a progress tick is not possible: one call
        size_t r = bapi::enc[e](in.p, n, (char *)out.p);
        mc::count("executions")++;
        mc::outcome(&r, sizeof r, (uint64_t)e);
        CHECK(r == total, "base%s of %zu bytes returned %zu, want %zu", enc_name[e], n, r, total);
        std::string head = base_encode(e, b.data(), period), tail = base_encode(e, b.data(), n % period);
        // what was written last: the tail of the text and its terminator, preceded by full periods
        CHECK(!memcmp(out.p, tail.c_str(), tail.size() + 1), "base%s of %zu bytes: wrong end of the text", enc_name[e], n);
        CHECK(!memcmp(out.p + tail.size() + 1, head.data() + tail.size() + 1, operiod - tail.size() - 1), "base%s of %zu bytes: wrong text", enc_name[e], n);
    }
}
std::string describe(const mc::Case &c) {
    int64_t a = c.v[1], b = c.v[2];
    const char *e = enc_name[c.v[0]];
    switch (c.kind) {
    case 1: return mc::strf("base%s of every string of %" PRId64 " bytes", e, a);
    case 2: return mc::strf("base%s of every 3-byte string that begins with %" PRId64, e, a);
    case 3: return mc::strf("base%s of %" PRId64 " bytes: every value of bytes %" PRId64 " and %" PRId64 ", the rest %" PRId64, e, a, b, b + 1, c.v[3]);
    case 4: return mc::strf("base%s of %" PRId64 " bytes: every pair of places with boundary values, the rest %" PRId64, e, a, b);
    case 5: return mc::strf("base%s of %" PRId64 " bytes, pattern %" PRId64, e, a, b);
    }
    if (c.kind == 7) return mc::strf("base%s of %" PRId64 " bytes, function and object", e, a);
    return mc::strf("base%s of %" PRId64 " bytes in one call", e, a);
}
void enumerate() {
    bool T = mc::thorough();
    int part = mc::part();
    if (part != 1)
        for (int e = 0; e < ENC_COUNT; e++)
            for (int64_t n : {((int64_t)1 << 31) + 1, ((int64_t)1 << 32) + 7})
                if (T || (n >> 32 == 0 && (e == E32 || e == E64URL))) mc::at(6, {e, n});
    if (part != 1)
        for (int k = T ? 27 : 24; k >= 11; k--)
            for (int e = 0; e < ENC_COUNT; e++)
                for (int d = -3; d <= 3; d++)
                    if (d >= -1 || k < 20) {
                        int64_t chars = ((int64_t)1 << k) * enc_bits[e] / 8; // data around 2^k and data whose text is around 2^k
                        mc::at(7, {e, ((int64_t)1 << k) + d});
                        if (k < 24 || T || d == 1) mc::at(7, {e, chars + d});
                    }
    for (int e = 0; e < ENC_COUNT; e++) {
        if (part != 2) {
            for (int n = 0; n <= 2; n++) mc::at(1, {e, n});
            for (int64_t n = 0; n <= (T ? 1500 : 420); n++)
                for (int pat = 0; pat < 7; pat++) mc::at(5, {e, n, pat});
            for (int64_t n : {1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1000003}) mc::at(5, {e, n, 0});
        }
        if (part != 1) {
            for (int x = 0; x < 256; x++) mc::at(2, {e, x});
            for (int64_t n = 4; n <= (T ? 16 : 11); n++)
                for (int64_t pos = 0; pos + 1 < n; pos++)
                    for (int bg : {0, 255, 0x5A}) mc::at(3, {e, n, pos, bg});
            for (int64_t n = 2; n <= (T ? 40 : 21); n++)
                for (int bg : {0, 255, 0x5A}) mc::at(4, {e, n, bg});
        }
    }
    if (part != 2)
        mc::offsets([&] {
            for (int e = 0; e < ENC_COUNT; e++)
                for (int64_t n = 1; n <= (T ? 300 : 70); n++) mc::at(5, {e, n, n % 7});
        });
}
void selfcheck() { base_selfcheck(); }
