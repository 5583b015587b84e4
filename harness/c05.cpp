// C05: file hashing over every file size in range x read pattern x buffering x start position.
#include "mc.hpp"
#include "api.hpp"
#include "huge.hpp"
using namespace ref;

struct Cookie {
    const Bytes *d;
    size_t pos, step;
    int pattern;
};
static ssize_t rd(void *ck, char *buf, size_t n) {
    Cookie *c = (Cookie *)ck;
    size_t k;
    switch (c->pattern) { // how the "operating system" splits reads
    case 0: k = n; break;
    case 1: k = 1; break;
    case 2: k = 1 + c->step % 7; break;
    case 3: k = 1023; break;
    case 4: k = c->step % 2 ? 1024 : 1; break;
    default: k = 511 + c->step % 3; break;
    }
    c->step++;
    if (k > n) k = n;
    if (k > c->d->size() - c->pos) k = c->d->size() - c->pos;
    memcpy(buf, c->d->data() + c->pos, k);
    c->pos += k;
    return (ssize_t)k;
}
static int sk(void *, off64_t *, int) { return -1; }

// One FILE whose contents are replaced between the calls: v = alg, size
static void rewritten(int alg, size_t n) {
    Bytes d = pattern(0, n);
    FILE *f = tmpfile();
    if (!f) abort();
    size_t bits = alg >= 12 ? 8 * digest_size[alg] : 0;
    Exact out(digest_size[alg]);
    for (int i = 0; i < 12; i++) {
        size_t at = n ? (size_t)i * (n - 1) / 11 : 0;
        if (n && i) d[at] ^= 0x40;
        rewind(f);
        if (n) fwrite(d.data(), 1, n, f);
        i % 2 ? rewind(f) : (void)fseek(f, (long)(i % 4 ? n / 2 : 0), SEEK_SET);
        size_t from = i % 2 == 0 && i % 4 ? n / 2 : 0;
        api::hash[alg].encode_f(f, out.p, bits);
        mc::count("executions")++;
        Bytes want = digest(alg, d.data() + from, n - from, bits);
        CHECK(!memcmp(out.p, want.data(), want.size()), "%s of a %zu-byte file, from byte %zu, rewritten %d times: got %s want %s", alg_name[alg], n, from, i, mc::hex(out.p, out.n).c_str(),
              mc::hex(want.data(), want.size()).c_str());
        mc::outcome(out.p, out.n);
    }
    fclose(f);
}
// One FILE hashed count times: v = alg, count
static void again(int alg, int64_t count) {
    size_t bits = alg >= 12 ? 8 * digest_size[alg] : 0;
    Bytes d = pattern(0, 1500), o(digest_size[alg]), w[2] = {digest(alg, d.data(), d.size(), bits), digest(alg, d.data() + 1400, 100, bits)};
    FILE *f = tmpfile();
    if (!f) abort();
    fwrite(d.data(), 1, d.size(), f);
    for (int64_t i = 1; i <= count; i++) {
        fseek(f, i % 4 ? 1400 : 0, SEEK_SET);
        api::hash[alg].encode_f(f, o.data(), bits);
        mc::count("executions")++;
        if (i % 1024 == 0) mc::tick();
        CHECK(o == w[i % 4 != 0], "%s of a file, call number %" PRId64 ": got %s want %s", alg_name[alg], i, mc::hex(o.data(), o.size()).c_str(), mc::hex(w[i % 4 != 0].data(), o.size()).c_str());
    }
    fclose(f);
}
// A file of more than 2^32 bytes: v = alg, size
struct Far { size_t pos, size; };
static ssize_t far_read(void *ck, char *buf, size_t n) {
    Far *f = (Far *)ck;
    if (n > f->size - f->pos) n = f->size - f->pos;
    memcpy(buf, huge::window().p + f->pos, n);
    f->pos += n;
    if (f->pos % (1 << 24) < n) mc::tick();
    return (ssize_t)n;
}
static void far_file(int alg, size_t n) {
    size_t bits = alg >= 12 ? 8 * digest_size[alg] : 0;
    Far ck{0, n};
    cookie_io_functions_t io = {far_read, nullptr, sk, nullptr};
    FILE *f = fopencookie(&ck, "r", io);
    if (!f) abort();
    setvbuf(f, nullptr, _IOFBF, 1 << 16);
    Bytes o(digest_size[alg]);
    api::hash[alg].encode_f(f, o.data(), bits);
    fclose(f);
    const std::string &want = huge::digest_of(alg_name[alg], n);
    mc::count("executions")++;
    mc::outcome(o.data(), o.size());
    CHECK(mc::hex(o.data(), o.size(), 99) == want, "%s of a file of %zu bytes: got %s want %s", alg_name[alg], n, mc::hex(o.data(), o.size(), 99).c_str(), want.c_str());
}
void run_case(const mc::Case &c) {
    if (c.kind == 4) return far_file((int)c.v[0], (size_t)c.v[1]);
    if (c.kind == 3) return again((int)c.v[0], c.v[1]);
    if (c.kind == 2) return rewritten((int)c.v[0], (size_t)c.v[1]);
    int alg = (int)c.v[0], pat = (int)c.v[2], mode = (int)c.v[3];
    size_t n = (size_t)c.v[1], skip = (size_t)c.v[4];
    Bytes d = pattern(0, n);
    FILE *f;
    Cookie ck{&d, 0, 0, pat};
    if (pat < 6) {
        cookie_io_functions_t io = {rd, nullptr, sk, nullptr};
        f = fopencookie(&ck, "r", io);
    }
    else {
        f = tmpfile();
        if (n) fwrite(d.data(), 1, n, f);
        rewind(f);
    }
    if (!f) abort();
    char sb[64];
    if (mode == 1) setvbuf(f, nullptr, _IONBF, 0);
    if (mode == 2) setvbuf(f, sb, _IOFBF, sizeof sb);
    for (size_t i = 0; i < skip; i++) fgetc(f);
    size_t bits = alg >= 12 ? 8 * digest_size[alg] + 8 * (n % 3) + n % 5 : 0;
    size_t on = alg >= 12 ? (bits + 7) / 8 : digest_size[alg];
    Exact out(on);
    api::hash[alg].encode_f(f, out.p, bits);
    fclose(f);
    if (skip > n) skip = n;
    Bytes want = digest(alg, d.data() + skip, n - skip, bits), got(out.p, out.p + on);
    mc::count("executions")++;
    mc::outcome(got.data(), got.size());
    CHECK(got == want, "%s of a %zu-byte file (read pattern %d, buffering %d, from byte %zu): got %s want %s", alg_name[alg], n, pat, mode, skip,
          mc::hex(got.data(), on).c_str(), mc::hex(want.data(), on).c_str());
}
std::string describe(const mc::Case &c) {
    if (c.kind == 4) return mc::strf("%s of a file of %" PRId64 " bytes", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 3) return mc::strf("%s of one file, %" PRId64 " times", alg_name[c.v[0]], c.v[1]);
    if (c.kind == 2) return mc::strf("%s of one FILE of %" PRId64 " bytes whose contents are replaced between the calls", alg_name[c.v[0]], c.v[1]);
    return mc::strf("%s file of %" PRId64 " bytes, read pattern %" PRId64 ", buffering %" PRId64 ", from %" PRId64, alg_name[c.v[0]], c.v[1], c.v[2], c.v[3], c.v[4]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        for (int a : {(int)A_RAWSHAKE128, (int)A_MD5}) mc::at(4, {a, huge::B32 + 77}); // the two templates
        if (T) for (int a = 1; a < 16; a++) if (a != A_RAWSHAKE128) mc::at(4, {a, huge::B32 + 77});
        return;
    }
    for (int a = 0; a < 16; a++) {
        for (int n : {0, 1, 2, 63, 64, 65, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65536, 100001}) mc::at(2, {a, n});
        for (int n = 0; n <= (T ? 8400 : 2100); n++) {
            mc::at(1, {a, n, n % 6, (n / 6) % 3, 0});
            if (T) for (int p = 0; p < 6; p++) for (int m = 0; m < 3; m++) mc::at(1, {a, n, p, m, 0});
        }
        for (int k = 0; k <= (T ? 9 : 5); k++)
            for (int dlt = -2; dlt <= 2; dlt++) {
                int n = 1024 * k + dlt;
                if (n < 0) continue;
                for (int p = 0; p < 7; p++)
                    for (int m = 0; m < 3; m++)
                        for (int s : {0, 1, 1000, 1024}) mc::at(1, {a, n, p, m, s});
            }
        for (int n : {4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072, 1048576, 1048577})
            for (int p : {0, 2, 6})
                for (int sk : {0, 1, 100, 512, 1000, 1024, 4096, 5000, 32768}) // a start after part of it has been read
                    for (int m = 0; m < 3; m++)
                        if (T || n < 1000000 || (sk % 1024 == 0 && m == 0 && sk < 4096)) mc::at(1, {a, n, p, m, sk});
    }
    for (int a = 0; a < 16; a++) mc::at(3, {a, T ? 1 << 20 : 66000});
}
void selfcheck() { hash_selfcheck(); }
