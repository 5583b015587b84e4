// C06: multi-buffer hashing over every tuple of pieces up to a count.
#include "mc.hpp"
#include "api.hpp"
#include "huge.hpp"
#include <utility>
using namespace ref;
// v = alg, n, piece kinds...  kind: 0 null(len 5), 1 null(len 0), 2 empty, 3.. sizes
static size_t piece(int alg, int64_t k) {
    size_t bs = block_size[alg];
    switch (k) {
    case 3: return 1;
    case 4: return bs - 1;
    case 5: return bs;
    case 6: return bs + 1;
    case 7: return bs / 2 + 3;
    case 8: return bs - 9;
    case 9: return 2 * bs;
    case 10: return 1000;
    case 11: return 70001;
    case 12: return 255;
    case 13: return 256;
    case 14: return 65535;
    case 15: return 65536;
    case 16: return 65537;
    case 17: return (1u << 20) + 1;
    case 18: return (1u << 24) + 1;
    default: return 0;
    }
}
// Lists of many pieces: N pairs of arguments in one call.
template <size_t I> static auto arg(const void *const *p, const size_t *l) {
    if constexpr (I % 2) return l[I / 2];
    else return p[I / 2];
}
template <size_t... I> static void many_(int alg, pgfe_encode_t *o, size_t bits, const void *const *p, const size_t *l, std::index_sequence<I...>) {
    size_t n = sizeof...(I) / 2;
    switch (alg) {
#define F(a, nm) case a: pgfe_##nm##_encode_multiple(o, n, arg<I>(p, l)...); break;
#define S(a, nm) case a: pgfe_##nm##_encode_multiple(o, bits, n, arg<I>(p, l)...); break;
        F(A_MD5, md5) F(A_SHA1, sha1) F(A_SHA224, sha224) F(A_SHA256, sha256) F(A_SHA384, sha384) F(A_SHA512, sha512) F(A_SHA512_224, sha512_224)
        F(A_SHA512_256, sha512_256) F(A_SHA3_224, sha3_224) F(A_SHA3_256, sha3_256) F(A_SHA3_384, sha3_384) F(A_SHA3_512, sha3_512)
        S(A_RAWSHAKE128, rawshake128) S(A_SHAKE128, shake128) S(A_RAWSHAKE256, rawshake256) S(A_SHAKE256, shake256)
    }
}
static const int many_sizes[] = {9, 16, 31, 64, 127, 128, 129, 255, 256, 257, 300, 600};
static void many(int alg, int which, pgfe_encode_t *o, size_t bits, const void *const *p, const size_t *l) {
    switch (which) {
#define M(i, n) case i: many_(alg, o, bits, p, l, std::make_index_sequence<2 * n>()); break;
        M(0, 9) M(1, 16) M(2, 31) M(3, 64) M(4, 127) M(5, 128) M(6, 129) M(7, 255) M(8, 256) M(9, 257) M(10, 300) M(11, 600)
    }
}
static void many_case(const mc::Case &c) { // v = alg, count, size of most pieces, place and kind of the odd one
    int alg = (int)c.v[0], n = many_sizes[c.v[1]];
    std::vector<const void *> p((size_t)n);
    std::vector<size_t> l((size_t)n);
    std::vector<std::unique_ptr<Exact>> hold;
    Bytes all;
    for (int i = 0; i < n; i++) {
        bool odd = c.v[3] == i;
        l[i] = (size_t)(odd ? 3 : c.v[2]);
        if (odd && c.v[4] == 0) {
            p[i] = nullptr;
            continue;
        }
        if (odd && c.v[4] == 1) l[i] = 0;
        Bytes b = pattern(4 + i % 9, l[i]);
        hold.emplace_back(new Exact(b.data(), b.size()));
        p[i] = hold.back()->p;
        all.insert(all.end(), b.begin(), b.end());
    }
    size_t bits = alg >= 12 ? 8 * digest_size[alg] : 0;
    Exact out(digest_size[alg]);
    many(alg, (int)c.v[1], out.p, bits, p.data(), l.data());
    Bytes want = digest(alg, all.data(), all.size(), bits);
    mc::count("executions")++;
    mc::outcome(out.p, out.n, (uint64_t)alg);
    CHECK(!memcmp(out.p, want.data(), want.size()), "%s: got %s want %s", describe(c).c_str(), mc::hex(out.p, out.n).c_str(), mc::hex(want.data(), want.size()).c_str());
}
static void huge_case(const mc::Case &c) { // v = alg, first piece, total
    int alg = (int)c.v[0];
    const uint8_t *w = huge::window().p;
    const void *p[4] = {w, nullptr, w + c.v[1], w + 7};
    size_t n = (size_t)c.v[2], l[4] = {(size_t)c.v[1], 9, n - (size_t)c.v[1], 0};
    Bytes out(digest_size[alg]);
    api::hash[alg].multi(out.data(), alg >= 12 ? 8 * digest_size[alg] : 0, 4, p, l);
    mc::count("executions")++;
    mc::outcome(out.data(), out.size());
    CHECK(mc::hex(out.data(), out.size(), 99) == huge::digest_of(alg_name[alg], n), "%s: got %s want %s", describe(c).c_str(), mc::hex(out.data(), out.size(), 99).c_str(),
          huge::digest_of(alg_name[alg], n).c_str());
}
// Pieces that lie in one buffer: the same piece again, pieces that overlap, lie side by side or end together.
// kind 4: v = alg, scale, count, first piece: every tuple of subranges of a buffer of a few points
static std::vector<size_t> points(int alg, int scale) {
    size_t bs = block_size[alg];
    if (scale == 0) return {0, 1, 2};
    if (scale == 1) return {0, 1, 2, 3};
    return {0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs};
}
static std::vector<std::pair<size_t, size_t>> ranges(int alg, int scale) {
    std::vector<std::pair<size_t, size_t>> r;
    auto p = points(alg, scale);
    for (size_t i : p) for (size_t j : p) if (i <= j) r.push_back({i, j - i});
    return r;
}
static void shared_case(const mc::Case &c) {
    int alg = (int)c.v[0], n = (int)c.v[2];
    auto rs = ranges(alg, (int)c.v[1]);
    size_t total = points(alg, (int)c.v[1]).back(), R = rs.size() + 1; // the last choice is a null piece
    Bytes b = pattern(4, total);
    Exact buf(b.data(), total);
    size_t bits = alg >= 12 ? 8 * digest_size[alg] : 0;
    Exact out(digest_size[alg]);
    std::vector<size_t> idx((size_t)n, 0);
    idx[0] = (size_t)c.v[3];
    for (;;) {
        const void *p[8];
        size_t l[8];
        Bytes all;
        for (int i = 0; i < n; i++) {
            if (idx[(size_t)i] == R - 1) {
                p[i] = nullptr, l[i] = 2;
                continue;
            }
            auto &r = rs[idx[(size_t)i]];
            p[i] = buf.p + r.first, l[i] = r.second;
            all.insert(all.end(), b.begin() + (long)r.first, b.begin() + (long)(r.first + r.second));
        }
        api::hash[alg].multi(out.p, bits, (size_t)n, p, l);
        mc::count("executions")++;
        mc::tick();
        Bytes want = digest(alg, all.data(), all.size(), bits);
        mc::outcome(out.p, out.n, (uint64_t)alg);
        if (memcmp(out.p, want.data(), want.size())) {
            std::string s;
            for (int i = 0; i < n; i++) s += p[i] ? mc::strf(" [%zu, +%zu]", rs[idx[(size_t)i]].first, l[i]) : " null";
            mc::fail(mc::strf("%s of pieces of one buffer%s: got %s want %s", alg_name[alg], s.c_str(), mc::hex(out.p, out.n).c_str(), mc::hex(want.data(), want.size()).c_str()));
        }
        int k = n - 1;
        while (k > 0 && ++idx[(size_t)k] == R) idx[(size_t)k--] = 0;
        if (k == 0) break;
    }
}
void run_case(const mc::Case &c) {
    if (c.kind == 4) return shared_case(c);
    if (c.kind == 2) return many_case(c);
    if (c.kind == 3) return huge_case(c);
    int alg = (int)c.v[0], n = (int)c.v[1];
    Bytes all;
    std::vector<std::unique_ptr<Exact>> hold;
    const void *p[8];
    size_t l[8];
    for (int i = 0; i < n; i++) {
        int64_t k = c.v[2 + i];
        if (k <= 1) {
            p[i] = nullptr;
            l[i] = k ? 0 : 5;
            continue;
        }
        l[i] = piece(alg, k);
        Bytes b = pattern(4 + i, l[i]);
        hold.emplace_back(new Exact(b.data(), b.size()));
        p[i] = hold.back()->p;
        all.insert(all.end(), b.begin(), b.end());
    }
    size_t bits = alg >= 12 ? 8 * digest_size[alg] + 3 : 0, on = digest_size[alg] + (alg >= 12);
    Exact out(on);
    api::hash[alg].multi(out.p, bits, (size_t)n, p, l);
    Bytes want = digest(alg, all.data(), all.size(), bits), got(out.p, out.p + on);
    mc::count("executions")++;
    mc::outcome(got.data(), got.size(), (uint64_t)alg);
    CHECK(got == want, "%s: got %s want %s", describe(c).c_str(), mc::hex(got.data(), on).c_str(), mc::hex(want.data(), on).c_str());
}
std::string describe(const mc::Case &c) {
    if (c.kind == 2)
        return mc::strf("%s of %d pieces of %" PRId64 " bytes, number %" PRId64 " %s", alg_name[c.v[0]], many_sizes[c.v[1]], c.v[2], c.v[3], c.v[4] == 0 ? "null" : c.v[4] == 1 ? "empty" : "of 3 bytes");
    if (c.kind == 3) return mc::strf("%s of pieces of %" PRId64 " bytes, null, %" PRId64 ", 0", alg_name[c.v[0]], c.v[1], c.v[2] - c.v[1]);
    if (c.kind == 4) return mc::strf("%s of every list of %" PRId64 " subranges of one buffer (scale %" PRId64 ") that begins with number %" PRId64, alg_name[c.v[0]], c.v[2], c.v[1], c.v[3]);
    std::string s = mc::strf("%s of %" PRId64 " pieces:", alg_name[c.v[0]], c.v[1]);
    for (int i = 0; i < c.v[1]; i++) s += c.v[2 + i] <= 1 ? " null" : " " + std::to_string(piece((int)c.v[0], c.v[2 + i]));
    return s;
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        for (int a : {(int)A_RAWSHAKE128, (int)A_MD5}) { // the two templates
            mc::at(3, {a, 5, huge::B32 + 77});
            mc::at(3, {a, huge::B32 + 70, huge::B32 + 77});
        }
        if (T)
            for (int a = 0; a < 16; a++)
                for (int64_t first : {(int64_t)3, huge::B31 + 1, huge::B32 + 1}) mc::at(3, {a, first, huge::B32 + 77});
        return;
    }
    int K = 12;
    for (int a = 0; a < 16; a++) {
        for (int s = 0; s < (int)(sizeof many_sizes / sizeof *many_sizes); s++)
            for (int sz : {1, 13, (int)block_size[a]})
                for (int at : {0, 1, many_sizes[s] / 2, many_sizes[s] - 2, many_sizes[s] - 1})
                    for (int k = 0; k < 3; k++) mc::at(2, {a, s, sz, at, k});
        for (int x = 12; x < 19; x++) {
            mc::at(1, {a, 1, x});
            for (int y = 0; y < 6; y++) {
                mc::at(1, {a, 2, x, y});
                mc::at(1, {a, 2, y, x});
            }
        }
    }
    for (int a = 0; a < 16; a++) {
        for (int f = 0; f <= (int)ranges(a, 0).size(); f++) mc::at(4, {a, 0, T ? 5 : 4, f});
        for (int f = 0; f <= (int)ranges(a, 1).size(); f++) mc::at(4, {a, 1, T ? 4 : 3, f});
        for (int f = 0; f <= (int)ranges(a, 2).size(); f++) mc::at(4, {a, 2, T ? 3 : 2, f});
    }
    for (int a = 0; a < 16; a++) {
        mc::at(1, {a, 0});
        for (int x = 0; x < K; x++) {
            mc::at(1, {a, 1, x});
            for (int y = 0; y < K; y++) {
                mc::at(1, {a, 2, x, y});
                for (int z = 0; z < (T ? K : 8); z++) {
                    if (T || (x < 8 && y < 8)) mc::at(1, {a, 3, x, y, z});
                    if ((x < 8 && y < 8 && T) || (x < 6 && y < 6 && z < 6))
                        for (int w = 0; w < (T ? 8 : 6); w++) mc::at(1, {a, 4, x, y, z, w});
                }
            }
        }
        for (int n = 5; n <= 8; n++) // longer lists: one odd piece at each place among equal ones, nulls included
            for (int base : {0, 2, 3, 7})
                for (int odd = 0; odd < 9; odd++)
                    for (int pos = 0; pos < n; pos++) {
                        int64_t k[8];
                        for (int i = 0; i < 8; i++) k[i] = i == pos ? odd : base;
                        mc::at(1, {a, n, k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]});
                    }
    }
}
void selfcheck() { hash_selfcheck(); }
