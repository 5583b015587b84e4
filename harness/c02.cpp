// C02: explicit-state exploration of streaming contexts. A state is (message prefix length, context bytes); the
// transitions are update calls of every size. Every distinct state reached is finalised on a copy and compared
// with the reference digest of the prefix; init is then applied to every state (finalised or not) and must
// give a fresh context.
#include "mc.hpp"
#include "api.hpp"
#include "longrun.hpp"
#include <deque>
using namespace ref;

static const size_t SQ = 0; // output bits for SHAKE: default size
static size_t obits(int alg) { return digest_size[alg] * 8 + SQ; }

static Bytes finish_copy(int alg, const api::Ctx &c) {
    api::Ctx d(c);
    Bytes o(digest_size[alg]);
    api::hash[alg].digest(d.p, o.data(), obits(alg));
    mc::count("executions")++;
    return o;
}
static std::vector<Bytes> ref_prefix(int alg, const Bytes &m) {
    std::vector<Bytes> r;
    Ref s(alg);
    for (size_t i = 0;; i++) {
        r.push_back(s.finish(obits(alg)));
        if (i == m.size()) break;
        s.update(&m[i], 1);
    }
    return r;
}
struct Node {
    size_t n;
    api::Ctx ctx;
    uint32_t parent, edge;
    Node(size_t n_, const api::Ctx &c, uint32_t p, uint32_t e) : n(n_), ctx(c), parent(p), edge(e) {}
};
static std::string path(const std::deque<Node> &q, uint32_t i) {
    std::vector<uint32_t> e;
    for (; q[i].parent != UINT32_MAX; i = q[i].parent) e.push_back(q[i].edge);
    std::string s = "init";
    for (size_t k = e.size(); k-- > 0;) s += " update(" + std::to_string(e[k]) + ")";
    return s;
}
// Fresh init over a used context, then a short stream in two pieces.
static void reinit_check(int alg, const api::Ctx &c, bool finalise, const Bytes &m, const std::vector<Bytes> &want, const std::string &how) {
    const api::Hash &H = api::hash[alg];
    size_t bs = H.bsize;
    const size_t lens[] = {0, 3, bs - 9, bs - 1, bs, bs + 2};
    for (size_t L : lens) {
        api::Ctx d(c);
        Bytes o(digest_size[alg]);
        if (finalise) H.digest(d.p, o.data(), obits(alg));
        H.init(d.p);
        if (L) {
            H.update(d.p, m.data(), L / 2);
            H.update(d.p, m.data() + L / 2, L - L / 2);
        }
        H.digest(d.p, o.data(), obits(alg));
        mc::count("executions")++;
        mc::count("transitions") += 3;
        CHECK(o == want[L], "%s: %s%s, then init and %zu bytes: got %s want %s", alg_name[alg], how.c_str(), finalise ? " digest" : "", L,
              mc::hex(o.data(), o.size()).c_str(), mc::hex(want[L].data(), want[L].size()).c_str());
    }
}
static void explore(int alg, int fill, int pat, size_t N, bool full) {
    const api::Hash &H = api::hash[alg];
    size_t bs = H.bsize;
    Bytes m = pattern(pat, N);
    std::vector<Bytes> want = ref_prefix(alg, m);
    std::deque<Node> q;
    std::unordered_set<uint64_t> seen;
    std::vector<int> per_len(N + 1, 0);
    api::Ctx c0(H.ctx_size, fill);
    reinit_check(alg, c0, false, m, want, mc::strf("memory filled with %d", fill));
    H.init(c0.p);
    q.emplace_back(0, c0, UINT32_MAX, 0);
    seen.insert(mc::fnv(c0.p, c0.n, 0));
    per_len[0] = 1;
    for (uint32_t i = 0; i < q.size(); i++) {
        size_t n = q[i].n;
        mc::count("states")++;
        // property at this state
        Bytes got = finish_copy(alg, q[i].ctx);
        mc::outcome(got.data(), got.size());
        CHECK(got == want[n], "%s after %s (%zu bytes, memory filled with %d): got %s want %s", alg_name[alg], path(q, i).c_str(), n, fill,
              mc::hex(got.data(), got.size()).c_str(), mc::hex(want[n].data(), want[n].size()).c_str());
        if (full || i % 7 == 0) {
            reinit_check(alg, q[i].ctx, false, m, want, path(q, i));
            reinit_check(alg, q[i].ctx, true, m, want, path(q, i));
        }
        bool first = per_len[n] <= 1;
        for (size_t k = 0; k <= N - n; k++) {
            if (!full && !first) { // later states of the same length: only sizes near the block structure
                size_t r = (n + k) % bs;
                if (!(k <= 2 || r <= 1 || r >= bs - 2 || k % bs <= 1)) continue;
            }
            for (int null0 = 0; null0 <= (k == 0); null0++) {
                api::Ctx d(q[i].ctx);
                H.update(d.p, null0 ? nullptr : m.data() + n, k);
                mc::count("transitions")++;
                uint64_t h = mc::fnv(d.p, d.n, n + k + 1);
                if (n + k == 0) h = mc::fnv(d.p, d.n, 0);
                if (q.size() < 100000 && seen.insert(h).second) {
                    q.emplace_back(n + k, d, i, (uint32_t)k);
                    per_len[n + k]++;
                }
            }
        }
    }
}
// kind 3: v = alg, what, count: one context, count updates of a byte (0) or of nothing (1), or count uses (2)
static void longrun(int alg, int what, uint64_t count) {
    const api::Hash &H = api::hash[alg];
    size_t ds = digest_size[alg];
    Bytes m = pattern(0, 1 << 16), o(ds);
    api::Ctx x(H.ctx_size, 0x5A);
    H.init(x.p);
    Ref r(alg);
    Bytes wa = digest(alg, m.data(), 5, obits(alg)), wb = digest(alg, m.data(), block_size[alg] + 1, obits(alg));
    if (what == 1) H.update(x.p, m.data(), 3), r.update(m.data(), 3);
    for (uint64_t i = 1; i <= count; i++) {
        if (what == 2) {
            H.init(x.p);
            H.update(x.p, m.data(), i % 3 ? 5 : block_size[alg] + 1);
            H.digest(x.p, o.data(), obits(alg));
            mc::count("transitions") += 3;
            CHECK(o == (i % 3 ? wa : wb), "%s context used for the %" PRIu64 "th time: wrong digest", alg_name[alg], i);
            continue;
        }
        H.update(x.p, m.data() + i % m.size(), what == 0);
        if (what == 0) r.update(m.data() + i % m.size(), 1);
        mc::count("transitions")++;
        if (i % 65536 == 0) mc::tick();
        if (!landmark(i)) continue;
        api::Ctx d(x);
        H.digest(d.p, o.data(), obits(alg));
        Bytes w = r.finish(obits(alg));
        mc::outcome(o.data(), ds);
        CHECK(o == w, "%s after %" PRIu64 " updates of %s: got %s want %s", alg_name[alg], i, what ? "nothing" : "one byte", mc::hex(o.data(), ds).c_str(), mc::hex(w.data(), ds).c_str());
    }
    mc::count("executions")++;
}
void run_case(const mc::Case &c) {
    int alg = (int)c.v[0];
    switch (c.kind) {
    case 3: longrun(alg, (int)c.v[1], (uint64_t)c.v[2]); break;
    case 1: explore(alg, (int)c.v[1], (int)c.v[2], (size_t)c.v[3], c.v[4]); break;
    case 2: { // many equal pieces: message of v[2] bytes cut into pieces of v[1]
        const api::Hash &H = api::hash[alg];
        size_t k = (size_t)c.v[1], N = (size_t)c.v[2];
        Bytes m = pattern(0, N);
        api::Ctx x(H.ctx_size, 0x5A);
        H.init(x.p);
        for (size_t i = 0; i < N; i += k) H.update(x.p, m.data() + i, std::min(k, N - i));
        Bytes o(digest_size[alg]);
        H.digest(x.p, o.data(), obits(alg));
        mc::count("executions")++;
        Bytes w = digest(alg, m.data(), N, obits(alg));
        CHECK(o == w, "%s of %zu bytes in pieces of %zu: got %s want %s", alg_name[alg], N, k, mc::hex(o.data(), o.size()).c_str(),
              mc::hex(w.data(), w.size()).c_str());
        break;
    }
    }
}
std::string describe(const mc::Case &c) {
    if (c.kind == 1)
        return mc::strf("%s state graph: memory fill %" PRId64 ", pattern %" PRId64 ", prefixes to %" PRId64 " bytes", alg_name[c.v[0]], c.v[1], c.v[2], c.v[3]);
    if (c.kind == 3) return mc::strf("%s context: %" PRId64 " %s", alg_name[c.v[0]], c.v[2], c.v[1] == 0 ? "updates of one byte" : c.v[1] == 1 ? "empty updates" : "uses");
    return mc::strf("%s %" PRId64 " bytes in pieces of %" PRId64, alg_name[c.v[0]], c.v[2], c.v[1]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int f : {0, 0xA5, 0xFF, 300})
        for (int a = 15; a >= 0; a--) {
            int bs = (int)block_size[a];
            if (!T && f != 0xA5) mc::at(1, {a, f, 0, bs + 12, 0});
            else mc::at(1, {a, f, f == 300 ? 4 : 0, T ? 3 * bs + 6 : 2 * bs + 6, T});
        }
    for (int a = 0; a < 16; a++) {
        int bs = (int)block_size[a];
        for (int k = 1; k <= (T ? 5 * bs : 2 * bs + 1); k++) mc::at(2, {a, k, T ? 6007 : 1531});
        for (int k : {1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}) mc::at(2, {a, k, 300007});
    }
    for (int a = 0; a < 16; a++)
        for (int what = 0; what < 3; what++) mc::at(3, {a, what, T ? (what == 2 ? 1 << 21 : (1 << 24) + 300) : 66000});
}
void selfcheck() { hash_selfcheck(); }
