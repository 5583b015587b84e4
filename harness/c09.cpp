// C09: every sequence of calls up to a depth on one HashEncoder, for every algorithm, against the plain list of the
// bytes since the last reset; and every requested digest bit length.
#include "mc.hpp"
#include "phases.hpp"
#include <unordered_map>
#include "api.hpp"
#include "dirty.hpp"
#include "huge.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
using namespace ref;
using libpgfe::AbstractEncoder;
using libpgfe::HashEncoder;
using libpgfe::SequentialData;

enum { RESET, DIGEST, DIGEST_BITS, P0, P1, PB_1, PB, P2B, CS, STR, SD, BASE, NOPS };
static const char *const op_name[NOPS] = {"reset()", "get_digest()", "get_digest(bits)", "update(ptr, 0)", "update(ptr, 1)", "update(ptr, block-1)",
                                          "update(ptr, block)", "update(ptr, 2 blocks+5)", "update(C string)", "update(std::string with zero bytes)",
                                          "update(SequentialData of block+1)", "base.update(ptr, 9)"};
static Bytes piece(int a, int op, int pos) {
    size_t bs = block_size[a];
    size_t n = op == P0 ? 0 : op == P1 ? 1 : op == PB_1 ? bs - 1 : op == PB ? bs : op == P2B ? 2 * bs + 5 : op == CS ? 3 : op == STR ? 5 : op == SD ? bs + 1 : 9;
    Bytes b = pattern(pos % 3, n);
    if (op == CS) for (auto &x : b) if (!x) x = 'x';
    if (op == STR) b[0] = b[3] = 0;
    if (op == SD) b[2] = b[n - 1] = 0;
    return b;
}
static std::unordered_map<uint64_t, Bytes> memo;
static const Bytes &want_of(int a, const Bytes &d, uint64_t bits) {
    uint64_t h = mc::fnv(d.data(), d.size(), bits * 16 + (uint64_t)a);
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, digest(a, d.data(), d.size(), bits)).first;
    return it->second;
}
static uint64_t out_bits(int a, uint64_t req) { // what the reference needs
    if (!is_shake(a)) return 0;
    return req ? req : 8 * digest_size[a];
}
static void compare(int a, HashEncoder &e, const Bytes &data, uint64_t req, const std::string &how) {
    const SequentialData *r = req ? e.get_digest(req) : e.get_digest();
    mc::count("executions")++;
    CHECK(r, "%s HashEncoder, %s: get_digest returned a null pointer", alg_name[a], how.c_str());
    Bytes want = want_of(a, data, out_bits(a, req));
    uint64_t bytes = req / 8 + (req % 8 != 0);
    if (!is_shake(a) && req && bytes < want.size()) want.resize((size_t)bytes);
    mc::outcome(r->data(), r->size(), (uint64_t)a);
    CHECK(r->size() == want.size() && !memcmp(r->data(), want.data(), want.size()),
          "%s HashEncoder, %s, get_digest(%" PRIu64 "): got %zu bytes %s, want %zu bytes %s", alg_name[a], how.c_str(), req, r->size(),
          mc::hex(r->data(), r->size()).c_str(), want.size(), mc::hex(want.data(), want.size()).c_str());
}
static std::string text(const int *seq, int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += (i ? "; " : "") + std::string(op_name[seq[i]]);
    return s;
}
static void play(int a, int fill, const int *seq, int n) {
    dirty::fill_kind() = fill;
    dirty::Object<HashEncoder> e(fill, api::choice[a]);
    AbstractEncoder &base = *e;
    Bytes data;
    for (int i = 0; i < n; i++) {
        int op = seq[i];
        mc::count("transitions")++;
        if (op == RESET) {
            i % 2 ? base.reset() : e->reset();
            data.clear();
            continue;
        }
        if (op == DIGEST || op == DIGEST_BITS) {
            compare(a, *e, data, op == DIGEST ? 0 : 77, text(seq, i));
            continue;
        }
        Bytes p = piece(a, op, i);
        Exact x(p.data(), p.size());
        if (op == CS) {
            Bytes zs = p;
            zs.push_back(0);
            Exact z(zs.data(), zs.size());
            e->update((const char *)z.p);
        }
        else if (op == STR) {
            static std::string s; // one place whose contents are replaced
            s.assign((const char *)p.data(), p.size());
            e->update(s);
        }
        else if (op == SD) {
            static SequentialData sd;
            sd.assign(p.data(), p.size());
            e->update(sd);
        }
        else if (op == BASE) base.update(x.p, x.n);
        else e->update(x.p, x.n);
        data.insert(data.end(), p.begin(), p.end());
    }
    if (n && (seq[n - 1] == DIGEST || seq[n - 1] == DIGEST_BITS)) return;
    compare(a, *e, data, 0, text(seq, n));
    CHECK(e->digest_size() == digest_size[a] && e->block_size() == block_size[a] && e->algorithm() == api::choice[a],
          "%s HashEncoder, %s: reports algorithm %d, digest size %zu, block size %zu", alg_name[a], text(seq, n).c_str(), (int)e->algorithm(),
          e->digest_size(), e->block_size());
    // reusable after reset
    e->reset();
    Bytes again = pattern(1, 10);
    e->update(again.data(), again.size());
    compare(a, *e, again, 0, text(seq, n) + "; get_digest(); reset(); update(ptr, 10)");
}
static void dfs(int a, int fill, int *seq, int n, int depth) {
    mc::count("states")++;
    play(a, fill, seq, n);
    if (n == depth) return;
    bool done = n && (seq[n - 1] == DIGEST || seq[n - 1] == DIGEST_BITS);
    for (int op = 0; op < NOPS; op++) {
        if (done && op != RESET) continue; // what follows a digest without a reset is not defined
        seq[n] = op;
        dfs(a, fill, seq, n + 1, depth);
    }
}
static const char *const overload_name[8] = {"update(ptr)", "base.update(ptr)", "update(C string)", "base.update(C string)", "update(std::string)", "base.update(std::string)", "update(SequentialData)", "base.update(SequentialData)"};
static void feed(HashEncoder &e, int overload, const uint8_t *p, size_t n) {
    AbstractEncoder &b = e;
    if (overload < 2) {
        Exact x(p, n);
        overload ? b.update(x.p, n) : e.update(x.p, n);
    }
    else if (overload < 4) {
        Exact z(n + 1, 0);
        for (size_t i = 0; i < n; i++) z.p[i] = p[i];
        overload % 2 ? b.update((const char *)z.p) : e.update((const char *)z.p);
    }
    else if (overload < 6) {
        static std::string s;
        s.assign((const char *)p, n);
        overload % 2 ? b.update(s) : e.update(s);
    }
    else {
        static SequentialData s;
        s.assign(p, n);
        overload % 2 ? b.update(s) : e.update(s);
    }
}
static void lengths(const mc::Case &c) { // v = alg, length, overload, first piece
    int a = (int)c.v[0], ov = (int)c.v[2];
    dirty::fill_kind() = 0xA5;
    dirty::Object<HashEncoder> e(0xA5, api::choice[a]);
    size_t n = (size_t)c.v[1], first = (size_t)c.v[3];
    Bytes d = pattern(first % 2 ? 0 : 5, n + first + 7);
    if (ov / 2 == 1) for (auto &x : d) if (!x) x = 0x80;
    if (first) feed(*e, (ov + 1) % 8, d.data(), first);
    feed(*e, ov, d.data() + first, n);
    feed(*e, ov, d.data() + first + n, 7);
    compare(a, *e, d, 0, mc::strf("first %zu bytes, then %s of %zu, then 7 more", first, overload_name[ov], n));
}
static void huge_case(const mc::Case &c) { // v = alg, overload: more than 2^32 bytes in one update
    int a = (int)c.v[0], ov = (int)c.v[1];
    size_t n = (size_t)huge::B32 + 77;
    const uint8_t *w = huge::window().p;
    HashEncoder e(api::choice[a]);
    std::string want = huge::digest_of(alg_name[a], n);
    if (ov == 0) e.update(w, n);
    else if (ov == 2) {
        std::string s((const char *)w, n);
        mc::tick();
        e.update(s);
    }
    else if (ov == 3) {
        SequentialData s(w, n);
        mc::tick();
        e.update(s);
    }
    else { // no zero bytes: the window with them replaced
        Bytes b(huge::WIN);
        for (size_t i = 0; i < b.size(); i++) b[i] = w[i] ? w[i] : 0x80;
        Window z(n + huge::WIN, huge::WIN);
        memcpy(z.p, b.data(), b.size());
        size_t lastw = n / huge::WIN * huge::WIN;
        if (mmap(z.p + lastw, huge::WIN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
        memcpy(z.p + lastw, b.data(), n - lastw);
        e.update((const char *)z.p);
        mc::tick();
        Ref r(a);
        r.update(z.p, n);
        Bytes d = r.finish();
        want = mc::hex(d.data(), d.size(), 99);
    }
    const SequentialData *r = e.get_digest();
    mc::count("executions")++;
    CHECK(r && mc::hex(r->data(), r->size(), 99) == want, "%s: got %s want %s", describe(c).c_str(), r ? mc::hex(r->data(), r->size(), 99).c_str() : "null", want.c_str());
    mc::outcome(r->data(), r->size());
}
std::string describe(const mc::Case &);
// kind 5: v = alg, what, count: one object, count updates of a byte (0), or count uses from reset to digest (1)
static void longrun(int a, int what, uint64_t count) {
    HashEncoder e(api::choice[a]);
    Bytes m = pattern(5, 1 << 16), all, w;
    std::vector<uint64_t> stops{255, 256, 257, 300, 65535, 65536, 65537, count};
    if (what == 0)
        for (uint64_t stop : stops) {
            e.reset();
            all.clear();
            for (uint64_t i = 0; i < stop; i++) {
                e.update(&m[i % m.size()], 1);
                all.push_back(m[i % m.size()]);
                mc::count("transitions")++;
            }
            mc::tick();
            compare(a, e, all, 0, mc::strf("%" PRIu64 " updates of one byte", stop));
        }
    else {
        memo.clear();
        for (uint64_t i = 1; i <= count; i++) {
            e.reset();
            all.assign(m.begin(), m.begin() + (i % 3 ? 5 : (long)block_size[a] + 1));
            e.update(all.data(), all.size());
            mc::count("transitions") += 3;
            if (i % 4096 == 0) mc::tick();
            compare(a, e, all, 0, mc::strf("use number %" PRIu64, i));
        }
    }
}
// kind 6: v = alg, large, small, times, reset?: updates of one object (with resets between, or none)
static void phased(const mc::Case &c) {
    int a = (int)c.v[0];
    Bytes m = pattern(5, 30000), all;
    for (int64_t mid : phases::MID) {
        HashEncoder e(api::choice[a]);
        all.clear();
        std::string how = describe(c) + mc::strf(" (%" PRId64 ")", mid);
        auto up = [&](int64_t n) {
            if (c.v[4]) e.reset(), all.clear();
            e.update(m.data(), (size_t)n);
            all.insert(all.end(), m.begin(), m.begin() + n);
            mc::count("transitions")++;
            if (c.v[4]) compare(a, e, all, 0, how);
        };
        up(c.v[1]);
        for (int64_t i = 0; i < c.v[3]; i++) up(c.v[2]);
        up(mid), up(c.v[2]), up(mid);
        if (!c.v[4]) compare(a, e, all, 0, how);
    }
}
// kind 1: v = alg, fill, depth, first op.  kind 2: v = alg, message length, first bit length, last bit length, step
void run_case(const mc::Case &c) {
    memo.clear();
    if (c.kind == 3) return lengths(c);
    if (c.kind == 4) return huge_case(c);
    if (c.kind == 6) return phased(c);
    if (c.kind == 5) return longrun((int)c.v[0], (int)c.v[1], (uint64_t)c.v[2]);
    int a = (int)c.v[0];
    if (c.kind == 1) {
        int seq[16] = {(int)c.v[3]};
        if (c.v[3] == 0) play(a, (int)c.v[1], seq, 0);
        dfs(a, (int)c.v[1], seq, 1, (int)c.v[2]);
        return;
    }
    dirty::fill_kind() = 0xA5;
    Bytes m = pattern(0, (size_t)c.v[1]);
    dirty::Object<HashEncoder> e(0xA5, api::choice[a]);
    for (uint64_t b = (uint64_t)c.v[2];; b += (uint64_t)c.v[4]) {
        e->reset();
        e->update(m.data(), m.size());
        compare(a, *e, m, b, mc::strf("%zu-byte message", m.size()));
        if ((uint64_t)c.v[3] - b < (uint64_t)c.v[4]) break;
    }
}
std::string describe(const mc::Case &c) {
    if (c.kind == 1)
        return mc::strf("HashEncoder(%s), memory filled with %" PRId64 ": every sequence of up to %" PRId64 " calls that begins with %s", alg_name[c.v[0]],
                        c.v[1], c.v[2], op_name[c.v[3]]);
    if (c.kind == 6) return phases::text(c.v[4] ? "updates after resets" : "updates", c.v[1], c.v[2], c.v[3]) + mc::strf(", HashEncoder(%s)", alg_name[c.v[0]]);
    if (c.kind == 5) return mc::strf("HashEncoder(%s): %" PRId64 " %s", alg_name[c.v[0]], c.v[2], c.v[1] ? "uses of one object" : "updates of one byte");
    if (c.kind == 3) return mc::strf("HashEncoder(%s), %" PRId64 " bytes, then %s of %" PRId64 ", then 7", alg_name[c.v[0]], c.v[3], overload_name[c.v[2]], c.v[1]);
    if (c.kind == 4) return mc::strf("HashEncoder(%s), %s of 2^32 + 77 bytes", alg_name[c.v[0]], overload_name[2 * (c.v[1] == 2 ? 2 : c.v[1] == 3 ? 3 : c.v[1])]);
    return mc::strf("HashEncoder(%s), %" PRId64 "-byte message, get_digest(%" PRIu64 "..%" PRIu64 " bits)", alg_name[c.v[0]], c.v[1], (uint64_t)c.v[2], (uint64_t)c.v[3]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        for (int ov = 0; ov < 4; ov++) mc::at(4, {A_MD5, ov});
        if (T) for (int a = 1; a < 16; a++) mc::at(4, {a, 0});
        return;
    }
    for (int a = 0; a < 16; a++) {
        std::vector<int64_t> ls;
        for (int n = 0; n <= (T ? 1100 : 420); n++) ls.push_back(n);
        for (int k = 9; k <= (T ? 22 : 17); k++) for (int d = -1; d <= 1; d++) ls.push_back((1 << k) + d);
        for (int64_t n : {70000, (1 << 20) + 3}) ls.push_back(n);
        for (int64_t n : ls)
            for (int ov = 0; ov < 8; ov++) mc::at(3, {a, n, ov, n % 3 == 0 ? 0 : n % 3 == 1 ? (int64_t)block_size[a] - 1 : 5});
        for (int ov = 0; ov < 8; ov += 2) if (T || a == A_MD5 || a == A_RAWSHAKE128) mc::at(3, {a, (1 << 24) + 1, ov, 3});
    }
    for (int a = 0; a < 16; a++) {
        for (int64_t n : {0, 3, 200})
            for (int64_t b = 0; b < (is_shake(a) ? 4400 : 560); b += 100) mc::at(2, {a, n, b, b + 99, 1});
        if (!is_shake(a))
            for (int64_t b : {(int64_t)1 << 32, ((int64_t)1 << 32) + 8, ((int64_t)1 << 35) + 8, (int64_t)1 << 62, (int64_t)-1, (int64_t)-8, (int64_t)-9})
                mc::at(2, {a, 3, b, b, 1});
        else
            for (int64_t b : {65536, 65537, 1 << 20, 8 * 1024 * 1024 + 3}) mc::at(2, {a, 3, b, b, 1});
    }
    for (int a = 0; a < 16; a++)
        for (int fill : {0xA5, 0, 256 + a, 1000})
            for (int op = 0; op < NOPS; op++) mc::at(1, {a, fill, fill == 0xA5 ? (T ? 5 : 4) : (T ? 4 : 3), op});
    mc::offsets([&] {
        for (int a = 0; a < 16; a++)
            for (int64_t n = 1; n <= (T ? 300 : 40); n += T || n < 9 ? 1 : 5)
                for (int ov = 0; ov < 8; ov++) mc::at(3, {a, n, ov, n % 3 == 1 ? (int64_t)block_size[a] - 1 : 5});
    });
    for (int a = 0; a < 16; a++) {
        for (int what = 0; what < 2; what++) mc::at(5, {a, what, T ? 1 << 20 : 66000});
        for (int r = 0; r < 2; r++) phases::each(T, r || a % 5 ? 20 : 300, [&](int64_t l, int64_t s, int64_t n) { mc::at(6, {a, l, s, n, r}); });
    }
}
void selfcheck() { hash_selfcheck(); }
