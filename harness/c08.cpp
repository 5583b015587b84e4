// C08: every sequence of operations up to a depth on one HMAC context, against a model that keeps the key set
// last and the data since. Whenever the model says a digest is defined, it is taken on a copy and compared, so
// every reachable state is checked.
#include "mc.hpp"
#include <unordered_map>
#include "api.hpp"
#include "longrun.hpp"
using namespace ref;

enum { INIT, KEY0, DIGEST_OP };
struct Model {
    Bytes key, data;
    bool keyed = false, done = false;
};
static std::vector<size_t> key_sizes(int a) {
    size_t bs = block_size[a], ds = digest_size[a];
    return {0, 1, ds, bs - 1, bs, bs + 1, 2 * bs + 3};
}
static std::vector<size_t> data_sizes(int a) {
    size_t bs = block_size[a];
    return {0, 1, bs - 9, bs, bs + 1};
}
static int op_count(int a) { return 2 + (int)key_sizes(a).size() + (int)data_sizes(a).size(); }
static std::string op_name(int a, int op) {
    int nk = (int)key_sizes(a).size();
    if (op == 0) return "init";
    if (op == 1) return "digest";
    if (op < 2 + nk) return mc::strf("set_key(%zu bytes)", key_sizes(a)[op - 2]);
    return mc::strf("update(%zu bytes)", data_sizes(a)[op - 2 - nk]);
}
static std::string path_text(int a, const std::vector<int> &path) {
    std::string s;
    for (int o : path) s += (s.empty() ? "" : ", ") + op_name(a, o);
    return s;
}
static std::unordered_map<uint64_t, Bytes> memo;
static const Bytes &want_of(int a, const Model &m) {
    uint64_t h = mc::fnv(m.key.data(), m.key.size(), mc::fnv(m.data.data(), m.data.size(), (uint64_t)a));
    auto it = memo.find(h);
    if (it == memo.end()) it = memo.emplace(h, hmac(a, m.key.data(), m.key.size(), m.data.data(), m.data.size())).first;
    return it->second;
}
static void check_state(int a, const api::Ctx &x, const Model &m, const std::vector<int> &path, int fill) {
    api::Ctx d(x);
    Exact out(digest_size[a], 0x11);
    api::hmac[a].digest(d.p, out.p);
    mc::count("executions")++;
    Bytes got(out.p, out.p + out.n);
    const Bytes &want = want_of(a, m);
    mc::outcome(got.data(), got.size());
    CHECK(got == want, "HMAC-%s context (memory filled with %d) after %s: digest %s, want %s", alg_name[a], fill, path_text(a, path).c_str(),
          mc::hex(got.data(), got.size()).c_str(), mc::hex(want.data(), want.size()).c_str());
}
static void dfs(int a, const api::Ctx &x, const Model &m, std::vector<int> &path, int depth, int fill) {
    mc::count("states")++;
    if (!m.done) check_state(a, x, m, path, fill);
    if (depth == 0) return;
    const api::Hmac &H = api::hmac[a];
    auto ks = key_sizes(a), ds = data_sizes(a);
    for (int op = 0; op < op_count(a); op++) {
        Model n = m;
        api::Ctx y(x);
        if (op == 0) {
            H.init(y.p);
            n = Model();
        }
        else if (op == 1) {
            if (m.done) continue; // a second digest of a finished context is not defined
            Exact out(digest_size[a], 0x22);
            H.digest(y.p, out.p);
            const Bytes &w = want_of(a, m);
            CHECK(!memcmp(out.p, w.data(), w.size()), "HMAC-%s after %s: wrong digest", alg_name[a], path_text(a, path).c_str());
            n.done = true;
        }
        else if (op < 2 + (int)ks.size()) {
            n.key = pattern((int)path.size() % 3 + 4, ks[op - 2]);
            Exact k(n.key.data(), n.key.size());
            H.set_key(y.p, k.p, k.n);
            n.data.clear();
            n.done = false;
        }
        else {
            if (m.done) continue;
            Bytes d = pattern((int)path.size() % 2, ds[op - 2 - ks.size()]);
            Exact e(d.data(), d.size());
            H.update(y.p, e.p, e.n);
            n.data.insert(n.data.end(), d.begin(), d.end());
        }
        mc::count("transitions")++;
        path.push_back(op);
        dfs(a, y, n, path, depth - 1, fill);
        path.pop_back();
    }
}
// One context, one key buffer, one data buffer: a byte of either changed between two uses. v = alg, key length
static void reused(int a, size_t kn) {
    const api::Hmac &H = api::hmac[a];
    Bytes k = pattern(4, kn), d = pattern(0, 10);
    Exact ke(k.data(), kn), de(d.data(), d.size()), out(digest_size[a]);
    api::Ctx x(H.ctx_size, 0xA5);
    H.init(x.p);
    for (size_t i = 0; i <= 2 * (kn + d.size()); i++) {
        if (i % 2) (i / 2 < kn ? ke.p[i / 2] : de.p[i / 2 - kn]) ^= (uint8_t)(1 << i / 2 % 8);
        if (i % 3 == 2) H.init(x.p);
        H.set_key(x.p, ke.p, kn);
        H.update(x.p, de.p, de.n);
        H.digest(x.p, out.p);
        mc::count("executions")++;
        mc::count("transitions") += 3;
        Bytes want = hmac(a, ke.p, kn, de.p, de.n);
        mc::outcome(out.p, out.n);
        CHECK(!memcmp(out.p, want.data(), want.size()), "HMAC-%s context, the same key buffer of %zu bytes and data buffer with a byte changed (%zu): digest %s, want %s", alg_name[a], kn, i,
              mc::hex(out.p, out.n).c_str(), mc::hex(want.data(), want.size()).c_str());
    }
}
// kind 3: v = alg, what, count: one context, count updates (0), keys (1), uses (2)
static void longrun(int a, int what, uint64_t count) {
    const api::Hmac &H = api::hmac[a];
    Bytes m = pattern(0, 1 << 16), all, k1 = pattern(4, 20), k2 = pattern(4, block_size[a] + 1), o(digest_size[a]);
    api::Ctx x(H.ctx_size, 0xA5);
    H.init(x.p);
    H.set_key(x.p, k1.data(), k1.size());
    for (uint64_t i = 1; i <= count; i++) {
        mc::count("transitions")++;
        if (i % 4096 == 0) mc::tick();
        const Bytes &k = what && i % 5 == 4 ? k2 : k1;
        if (what == 0) {
            H.update(x.p, &m[i % m.size()], 1);
            all.push_back(m[i % m.size()]);
            if (i > 300 && i % 256 > 1 && i % 65536 > 3) continue;
            if (i > 1024 && (i & (i - 1)) && i % 65536 > 3 && i != count) continue;
        }
        else {
            H.set_key(x.p, k.data(), k.size());
            if (what == 1 && !landmark(i)) continue;
            all.assign(m.begin(), m.begin() + 3 + (long)(i % 2));
            H.update(x.p, all.data(), all.size());
        }
        api::Ctx d(x);
        H.digest(what == 2 ? x.p : d.p, o.data());
        static std::map<std::vector<uint64_t>, Bytes> memo;
        if (memo.size() > 100) memo.clear();
        Bytes &w = memo[{(uint64_t)a, k.size(), what ? 0 : i, all.size()}];
        if (w.empty()) w = hmac(a, k.data(), k.size(), all.data(), all.size());
        mc::outcome(o.data(), o.size(), (uint64_t)a);
        CHECK(o == w, "HMAC-%s context, %s number %" PRIu64 ": got %s want %s", alg_name[a], what == 0 ? "update" : what == 1 ? "key" : "use", i, mc::hex(o.data(), o.size()).c_str(), mc::hex(w.data(), w.size()).c_str());
    }
    mc::count("executions")++;
}
// v = alg, fill, depth, first op, second op (-1: none)
void run_case(const mc::Case &c) {
    int a = (int)c.v[0];
    if (c.kind == 2) return reused(a, (size_t)c.v[1]);
    if (c.kind == 3) return longrun(a, (int)c.v[1], (uint64_t)c.v[2]);
    api::Ctx x(api::hmac[a].ctx_size, (int)c.v[1]);
    const api::Hmac &H = api::hmac[a];
    memo.clear();
    Model m;
    std::vector<int> path{0};
    H.init(x.p);
    auto ks = key_sizes(a), ds = data_sizes(a);
    int op = (int)c.v[3];
    // the first operation after init is part of the case, so that the tree is split between processes
    if (op >= 2) {
        if (op < 2 + (int)ks.size()) {
            m.key = pattern(5, ks[op - 2]);
            Exact k(m.key.data(), m.key.size());
            H.set_key(x.p, k.p, k.n);
        }
        else {
            m.data = pattern(1, ds[op - 2 - ks.size()]);
            Exact e(m.data.data(), m.data.size());
            H.update(x.p, e.p, e.n);
        }
        path.push_back(op);
        mc::count("transitions")++;
    }
    dfs(a, x, m, path, op == 0 ? 1 : (int)c.v[2], (int)c.v[1]);
}
std::string describe(const mc::Case &c) {
    if (c.kind == 3) return mc::strf("HMAC-%s context: %" PRId64 " %s", alg_name[c.v[0]], c.v[2], c.v[1] == 0 ? "updates of one byte" : c.v[1] == 1 ? "keys" : "uses");
    if (c.kind == 2) return mc::strf("HMAC-%s context, one key buffer of %" PRId64 " bytes changed between the uses", alg_name[c.v[0]], c.v[1]);
    return mc::strf("HMAC-%s context, memory filled with %" PRId64 ": every sequence of %" PRId64 " calls after init, %s", alg_name[c.v[0]], c.v[1], c.v[2], op_name((int)c.v[0], (int)c.v[3]).c_str());
}
void enumerate() {
    bool T = mc::thorough();
    for (int a = 0; a < 12; a++)
        for (int64_t n = 1; n <= 2 * (int64_t)block_size[a] + 3; n += T ? 1 : 3) mc::at(2, {a, n});
    for (int a = 11; a >= 0; a--)
        for (int fill : {0xA5, 0, 300})
            for (int op = 0; op < op_count(a); op++)
                if (op != 1) mc::at(1, {a, fill, fill == 0xA5 ? (T ? 5 : 3) : (T ? 3 : 2), op});
    mc::offsets([&] {
        for (int a = 0; a < 12; a++)
            for (int64_t n = 1; n <= 2 * (int64_t)block_size[a] + 3; n += T ? 1 : n < 12 ? 2 : 17) mc::at(2, {a, n});
    });
    for (int a = 0; a < 12; a++)
        for (int what = 0; what < 3; what++) mc::at(3, {a, what, T ? 1 << 20 : 66000});
}
void selfcheck() {
    hash_selfcheck();
    for (int a = 0; a < 12; a++)
        for (int k = 0; k < 300; k += 29) {
            Bytes kk = pattern(0, (size_t)k), mm = pattern(0, (size_t)k * 2), d = hmac(a, kk.data(), kk.size(), mm.data(), mm.size());
            printf("REF hmac %s %d %d %s\n", alg_name[a], k, k * 2, mc::hex(d.data(), d.size(), 99).c_str());
        }
}
