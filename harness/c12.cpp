// C12: decode(encode(x)) == x for every byte string within the bounds, with the text as encoded, without its padding,
// in the other letter case, in alternating case, and in the other Base64 alphabet; through the functions and objects.
#include "mc.hpp"
#include "baseapi.hpp"
#include "window.hpp"
using namespace ref;

enum { PLAIN, UNPADDED, LOWER, ALTERNATE, OTHER, NFORMS };
static const char *const form_name[NFORMS] = {"as encoded", "without padding", "in lower case", "in alternating case", "in the other alphabet"};
static bool applies(int e, int form) { return form == UNPADDED ? e != E16 : form == LOWER || form == ALTERNATE ? e < E64 : form == OTHER ? e >= E64 : true; }
static void reshape(int e, int form, char *t, size_t &w) {
    if (form == UNPADDED) while (w && t[w - 1] == '=') w--;
    for (size_t i = 0; i < w; i++) {
        bool up = t[i] >= 'A' && t[i] <= 'Z';
        if (up && (form == LOWER || (form == ALTERNATE && i % 2))) t[i] = (char)(t[i] + 32);
        if (form == OTHER) t[i] = t[i] == '+' ? '-' : t[i] == '-' ? '+' : t[i] == '/' ? '_' : t[i] == '_' ? '/' : t[i];
    }
    t[w] = 0;
}
static void one(int e, const uint8_t *p, size_t n) {
    for (int form = 0; form < NFORMS; form++) {
        if (!applies(e, form)) continue;
        std::string enc = base_encode(e, p, n);
        if (form == PLAIN) { // what the library itself encodes
            Exact text(enc.size() + 1, 0);
            size_t r = bapi::enc[e](p, n, (char *)text.p);
            CHECK(r <= enc.size(), "base%s: encoded length %zu", enc_name[e], r);
            enc.assign((const char *)text.p, r);
        }
        size_t w = enc.size();
        Exact t(w + 1, 0);
        memcpy(t.p, enc.c_str(), w + 1);
        reshape(e, form, (char *)t.p, w);
        Exact tx(t.p, w + 1);
        Exact out(bapi::dec_room(e, n), 0xCC);
        size_t r = bapi::dec[e]((const char *)tx.p, out.p);
        mc::count("executions")++;
        mc::outcome(p, n, (uint64_t)e);
        CHECK(r == n && !memcmp(out.p, p, n), "base%s text of %zu bytes %s, %s: decoded to %zu bytes %s", enc_name[e], n, mc::hex(p, n).c_str(), form_name[form], r,
              mc::hex(out.p, r < n ? r : n).c_str());
        CHECK(!memcmp(tx.p, t.p, w + 1), "base%s decode changed its input", enc_name[e]);
        auto obj = bapi::make(e);
        libpgfe::SequentialData sd = form % 2 ? obj->decode((const char *)tx.p) : obj->decode(std::string((const char *)tx.p, w));
        CHECK(sd.size() == n && !memcmp(sd.data(), p, n), "base%s object, text of %zu bytes %s, %s: decoded to %zu bytes %s", enc_name[e], n, mc::hex(p, n).c_str(),
              form_name[form], sd.size(), mc::hex(sd.data(), sd.size()).c_str());
    }
}
static void fast(int e, const uint8_t *p, size_t n) {
    static char base[4096], text[4096];
    static uint8_t out[4096];
    size_t w0 = bapi::enc[e](p, n, base);
    for (int form = 0; form < NFORMS; form++) {
        if (!applies(e, form)) continue;
        size_t w = w0;
        memcpy(text, base, w + 1);
        reshape(e, form, text, w);
        size_t r = bapi::dec[e](text, out);
        mc::count("executions")++;
        if (r != n || memcmp(out, p, n))
            mc::fail(mc::strf("base%s text \"%s\" of %zu bytes %s, %s: decoded to %zu bytes %s", enc_name[e], text, n, mc::hex(p, n).c_str(), form_name[form], r, mc::hex(out, r).c_str()));
    }
}
static const uint8_t edge[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 127, 128, 129, 192, 224, 240, 248, 252, 254, 255};
void run_case(const mc::Case &c) {
    int e = (int)c.v[0];
    if (c.kind == 1) {
        uint8_t b[2];
        int n = (int)c.v[1];
        for (int x = 0; x < (n == 0 ? 1 : 256); x++) {
            b[0] = (uint8_t)x;
            one(e, b, (size_t)n);
        }
    }
    else if (c.kind == 2) {
        uint8_t b[3] = {(uint8_t)c.v[1]};
        int n = (int)c.v[2];
        for (int x = 0; x < (n == 2 ? 256 : 65536); x++) {
            b[1] = (uint8_t)(n == 2 ? x : x >> 8);
            b[2] = (uint8_t)x;
            fast(e, b, (size_t)n);
        }
        mc::outcome(b, 1, 77 + (uint64_t)e);
    }
    else if (c.kind == 3) {
        size_t n = (size_t)c.v[1], pos = (size_t)c.v[2];
        Bytes b(n, (uint8_t)c.v[3]);
        for (int x = 0; x < 65536; x++) {
            b[pos] = (uint8_t)(x >> 8);
            b[pos + 1] = (uint8_t)x;
            fast(e, b.data(), n);
        }
        mc::outcome(b.data(), n, 99 + (uint64_t)e);
    }
    else if (c.kind == 4) {
        size_t n = (size_t)c.v[1];
        for (size_t i = 0; i < n; i++)
            for (size_t j = i; j < n; j++)
                for (uint8_t x : edge)
                    for (uint8_t y : edge) {
                        if (i == j && x != y) continue;
                        Bytes b(n, (uint8_t)c.v[2]);
                        b[i] = x;
                        b[j] = y;
                        fast(e, b.data(), n);
                    }
        mc::outcome(&n, sizeof n, 5 + (uint64_t)e);
    }
    else if (c.kind == 5) {
        Bytes b = pattern((int)c.v[2], (size_t)c.v[1]);
        one(e, b.data(), b.size());
    }
    else if (c.kind == 7) { // long text through the function and the object
        Bytes b = pattern(0, (size_t)c.v[1]);
        std::string t = base_encode(e, b.data(), b.size());
        auto o = bapi::make(e);
        std::string own = o->encode(b.data(), b.size());
        for (int form = 0; form < NFORMS; form++) {
            if (!applies(e, form)) continue;
            mc::tick();
            mc::count("executions")++;
            std::string x = form == PLAIN ? own : t;
            size_t w = x.size();
            reshape(e, form, &x[0], w);
            x.resize(w);
            Bytes out(bapi::dec_room(e, b.size()), 0xCC);
            size_t r = bapi::dec[e](x.c_str(), out.data());
            CHECK(r == b.size() && !memcmp(out.data(), b.data(), r), "base%s text of %zu bytes, %s: decoded to %zu bytes", enc_name[e], b.size(), form_name[form], r);
            libpgfe::SequentialData sd = form % 2 ? o->decode(x.c_str()) : o->decode(x);
            CHECK(sd.size() == b.size() && !memcmp(sd.data(), b.data(), sd.size()), "base%s object, text of %zu bytes, %s: decoded to %zu bytes", enc_name[e], b.size(), form_name[form], sd.size());
        }
        mc::outcome(&c.v[1], 8, (uint64_t)e);
    }
    else { // a text of more than 2^31 (2^32) characters in one call
        size_t u = (size_t)enc_unit[e], ch = (size_t)enc_chunk[e], period = 15 * 4096 * 16, tperiod = period / u * ch;
        size_t n = (size_t)c.v[1]; // decoded bytes
        Bytes b = pattern(0, period);
        std::string t = base_encode(e, b.data(), period);
        size_t total = (n * 8 + (size_t)enc_bits[e] - 1) / (size_t)enc_bits[e];
        // the last window of the text needs its own memory, because it ends with a terminator
        Window text((total / tperiod + 2) * tperiod, tperiod), out(n + 1 + period, period);
        memcpy(text.p, t.data(), tperiod);
        size_t lastw = total / tperiod * tperiod;
        if (mmap(text.p + lastw, tperiod, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
        memcpy(text.p + lastw, t.data(), total - lastw);
        text.p[total] = 0;
        size_t r = bapi::dec[e]((const char *)text.p, out.p);
        mc::count("executions")++;
        mc::outcome(&r, sizeof r, (uint64_t)e);
        CHECK(r == n, "base%s text of %zu bytes, without padding: decoded to %zu bytes", enc_name[e], n, r);
        size_t last = n % period; // index of the terminator in the window
        CHECK(!memcmp(out.p, b.data(), last) && !memcmp(out.p + last + 1, b.data() + last + 1, period - last - 1), "base%s text of %zu bytes: wrong bytes", enc_name[e], n);
    }
}
std::string describe(const mc::Case &c) {
    int64_t a = c.v[1], b = c.v[2];
    const char *e = enc_name[c.v[0]];
    switch (c.kind) {
    case 1: return mc::strf("base%s, every string of %" PRId64 " bytes", e, a);
    case 2: return mc::strf("base%s, every string of %" PRId64 " bytes that begins with %" PRId64, e, b, a);
    case 3: return mc::strf("base%s, %" PRId64 " bytes: every value of bytes %" PRId64 " and %" PRId64 ", the rest %" PRId64, e, a, b, b + 1, c.v[3]);
    case 4: return mc::strf("base%s, %" PRId64 " bytes: every pair of places with boundary values, the rest %" PRId64, e, a, b);
    case 5: return mc::strf("base%s, %" PRId64 " bytes, pattern %" PRId64, e, a, b);
    }
    if (c.kind == 7) return mc::strf("base%s text of %" PRId64 " bytes, function and object", e, a);
    return mc::strf("base%s text of %" PRId64 " bytes in one call", e, a);
}
void enumerate() {
    bool T = mc::thorough();
    int part = mc::part();
    if (part != 1)
        for (int e = 0; e < ENC_COUNT; e++)
            for (int64_t n : {((int64_t)1 << 31) + 1, ((int64_t)1 << 32) + 7})
                if (T || (n >> 32 == 0 && e == E64)) mc::at(6, {e, n});
    if (part != 1)
        for (int k = T ? 27 : 24; k >= 11; k--)
            for (int e = 0; e < ENC_COUNT; e++)
                for (int d = -3; d <= 3; d++)
                    if (d >= -1 || k < 20) {
                        int64_t bytes = ((int64_t)1 << k) * enc_bits[e] / 8; // data around 2^k and data whose text is around 2^k
                        if (k < 24 || T || d == 1) mc::at(7, {e, ((int64_t)1 << k) + d});
                        mc::at(7, {e, bytes + d});
                    }
    for (int e = 0; e < ENC_COUNT; e++) {
        if (part != 2) {
            for (int n = 0; n <= 1; n++) mc::at(1, {e, n});
            for (int64_t n = 0; n <= (T ? 1500 : 420); n++)
                for (int pat = 0; pat < 7; pat++) mc::at(5, {e, n, pat});
            for (int64_t n : {1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1000003}) mc::at(5, {e, n, 0});
        }
        if (part != 1) {
            for (int x = 0; x < 256; x++) {
                mc::at(2, {e, x, 2});
                if (T || x % 4 == 3 || x == 0) mc::at(2, {e, x, 3});
            }
            for (int64_t n = 4; n <= (T ? 16 : 11); n++)
                for (int64_t pos = 0; pos + 1 < n; pos++)
                    for (int bg : {0, 255, 0x5A}) mc::at(3, {e, n, pos, bg});
            for (int64_t n = 2; n <= (T ? 40 : 18); n++)
                for (int bg : {0, 255, 0x5A}) mc::at(4, {e, n, bg});
        }
    }
    if (part != 2)
        mc::offsets([&] {
            for (int e = 0; e < ENC_COUNT; e++)
                for (int64_t n = 1; n <= (T ? 300 : 70); n++) mc::at(5, {e, n, n % 7});
        });
}
void selfcheck() { base_selfcheck(); }
