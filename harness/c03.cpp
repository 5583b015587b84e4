// C03: SHAKE/RawSHAKE output for every bit length, and the state graph of piecewise squeezing.
#include "mc.hpp"
#include "api.hpp"
#include <deque>
#include "window.hpp"
using namespace ref;

static void cmp(int alg, const Bytes &got, const Bytes &want, const std::string &what) {
    mc::count("executions")++;
    mc::outcome(got.data(), got.size());
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && got[i] == want[i]) i++;
    mc::fail(mc::strf("%s %s: first difference at output byte %zu: got %s want %s", alg_name[alg], what.c_str(), i,
                      mc::hex(got.data() + i, got.size() - i, 16).c_str(), mc::hex(want.data() + i, want.size() - i, 16).c_str()));
}
void run_case(const mc::Case &c) {
    int alg = (int)c.v[0];
    const api::Hash &H = api::hash[alg];
    size_t bs = H.bsize;
    switch (c.kind) {
    case 1: { // one-shot, string and context forms; v = alg, msglen, bits
        size_t bits = (size_t)c.v[2], n = (bits + 7) / 8;
        Bytes m = pattern(4, (size_t)c.v[1]);
        for (auto &b : m) if (!b) b = 0x80;
        Bytes want = bits ? digest(alg, m.data(), m.size(), bits) : Bytes();
        Bytes z = m;
        z.push_back(0);
        for (int form = 0; form < 3; form++) {
            Exact in(form == 1 ? z.data() : m.data(), m.size() + (form == 1)), out(n, 0xEE);
            if (form == 0) H.encode(in.p, in.n, out.p, bits);
            else if (form == 1) H.encode_default(in.p, out.p, bits);
            else {
                api::Ctx x(H.ctx_size, 0xC3);
                H.init(x.p);
                H.update(x.p, in.p, in.n);
                H.digest(x.p, out.p, bits);
            }
            cmp(alg, Bytes(out.p, out.p + n), want, mc::strf("form %d, %zu-byte message, %zu bits", form, m.size(), bits));
        }
        break;
    }
    case 2: { // squeeze state graph: v = alg, msglen, N (total output bytes), full
        size_t N = (size_t)c.v[2];
        Bytes m = pattern(0, (size_t)c.v[1]);
        Bytes S = digest(alg, m.data(), m.size(), 8 * (N + 2));
        struct Node { size_t t; api::Ctx ctx; };
        std::deque<Node> q;
        std::unordered_set<uint64_t> seen;
        api::Ctx x(H.ctx_size, 0x3C);
        H.init(x.p);
        H.update(x.p, m.data(), m.size());
        q.push_back({0, x});
        seen.insert(mc::fnv(x.p, x.n, 0));
        std::vector<int> per(N + 1, 0);
        for (size_t i = 0; i < q.size(); i++) {
            size_t t = q[i].t;
            mc::count("states")++;
            bool first = per[t]++ == 0;
            for (size_t r = 0; t + r <= N; r++) {
                size_t e = (t + r) % bs;
                if (!c.v[3] && !(r <= 2 || e <= 1 || e >= bs - 1 || (first && t <= 2))) continue;
                api::Ctx d(q[i].ctx);
                Exact out(r, 0xEE);
                H.digest(d.p, out.p, 8 * r);
                mc::count("transitions")++;
                cmp(alg, Bytes(out.p, out.p + r), Bytes(S.begin() + (long)t, S.begin() + (long)(t + r)), mc::strf("%zu bytes after %zu bytes already squeezed", r, t));
                if (q.size() < 60000 && seen.insert(mc::fnv(d.p, d.n, t + r)).second) q.push_back({t + r, d});
            }
            for (size_t pb = 1; pb < 8; pb++) { // a final request that ends inside a byte
                for (size_t r : {(size_t)0, (size_t)1, bs - t % bs, bs - t % bs - 1}) {
                    if (t + r + 1 > N) continue;
                    api::Ctx d(q[i].ctx);
                    Exact out(r + 1, 0xEE);
                    H.digest(d.p, out.p, 8 * r + pb);
                    Bytes w(S.begin() + (long)t, S.begin() + (long)(t + r + 1));
                    w.back() &= (uint8_t)((1 << pb) - 1);
                    mc::count("transitions")++;
                    cmp(alg, Bytes(out.p, out.p + r + 1), w, mc::strf("%zu bits after %zu bytes already squeezed", 8 * r + pb, t));
                }
            }
        }
        break;
    }
    case 3: { // message content and length sweep with the default output
        Bytes m = pattern((int)c.v[2], (size_t)c.v[1]);
        Exact in(m.data(), m.size()), out(bs + 9);
        H.encode(in.p, in.n, out.p, 8 * out.n);
        cmp(alg, Bytes(out.p, out.p + out.n), digest(alg, m.data(), m.size(), 8 * out.n), mc::strf("%zu-byte message", m.size()));
        break;
    }
    case 6: { // one context squeezed a byte (v[1] = 0), or nothing and then a byte (1), at a time
        api::Ctx x(H.ctx_size, 0x3C);
        H.init(x.p);
        H.update(x.p, (api::In) "abc", 3);
        size_t N = (size_t)c.v[2];
        Bytes S = digest(alg, (const uint8_t *)"abc", 3, 8 * N), got(N);
        for (size_t i = 0; i < N; i++) {
            if (c.v[1]) H.digest(x.p, got.data() + i, 0);
            H.digest(x.p, got.data() + i, 8);
            mc::count("transitions")++;
            if (i % 8192 == 0) mc::tick();
        }
        cmp(alg, got, S, mc::strf("%zu requests of one byte%s", N, c.v[1] ? " and as many of nothing" : ""));
        break;
    }
    case 5: { // one buffer whose contents change in one byte between the calls, and the output length with it
        Bytes m = pattern(0, (size_t)c.v[1]);
        Exact in(m.size()), out(bs + 3);
        for (size_t i = 0; i < 2 * m.size(); i++) {
            if (i % 2) m[i / 2] ^= (uint8_t)(1 << i / 2 % 8);
            memcpy(in.p, m.data(), m.size());
            size_t n = i % 3 == 2 ? out.n : 32;
            H.encode(in.p, in.n, out.p, 8 * n);
            cmp(alg, Bytes(out.p, out.p + n), digest(alg, m.data(), m.size(), 8 * n), mc::strf("%zu-byte message in a buffer used before", m.size()));
        }
        break;
    }
    case 4: { // output of 2^32 bits and more: the last window of the stream, and nothing beyond
        size_t win = 1 << 20, bytes = (size_t)c.v[1], map = (bytes + win - 1) / win * win + win;
        Window w(map, win);
        H.encode((api::In) "abc", 3, w.p, 8 * bytes);
        Ref r(alg);
        r.update((const uint8_t *)"abc", 3);
        // reference tail: regenerate the stream without storing it
        Bytes tail(win);
        {
            api::Ctx x(H.ctx_size, 0);
            H.init(x.p);
            H.update(x.p, (api::In) "abc", 3);
            size_t chunk = bs * 512, pos = 0; // piecewise stream of the implementation, decided by kind 2
            Bytes b(chunk);
            while (pos < bytes) {
                size_t k = std::min(chunk, bytes - pos);
                H.digest(x.p, b.data(), 8 * k);
                for (size_t i = 0; i < k; i++) tail[(pos + i) % win] = b[i];
                pos += k;
            }
        }
        mc::count("executions")++;
        CHECK(!memcmp(w.p, tail.data(), win), "%s: %zu output bytes in one request differ from the stream", alg_name[alg], bytes);
        break;
    }
    }
}
std::string describe(const mc::Case &c) {
    static const char *k[] = {"", "bits", "squeeze state graph", "message sweep", "huge output", "one buffer, every byte changed in turn"};
    return mc::strf("%s %s a=%" PRId64 " b=%" PRId64, alg_name[c.v[0]], k[c.kind], c.v[1], c.v[2]);
}
void enumerate() {
    bool T = mc::thorough();
    for (int a = 12; a < 16 && mc::part() != 1; a++) {
        mc::at(4, {a, (1ll << 29) + 8, 0});
        if (T) mc::at(4, {a, (1ll << 30) + 1003, 0});
    }
    if (mc::part() == 2) return;
    for (int a = 12; a < 16; a++) {
        int bs = (int)block_size[a];
        for (int m : {0, 5, bs - 1, bs}) mc::at(2, {a, m, T ? 4 * bs + 4 : 2 * bs + 4, T});
    }
    for (int a = 12; a < 16; a++) {
        int bs = (int)block_size[a];
        for (int m : {0, 1, bs - 2, bs - 1, bs, bs + 1, 3 * bs})
            for (int b = 0; b <= (T ? 6 * 8 * bs : 3 * 8 * bs + 9); b++)
                if (T || b <= 40 || m == 1 || b % 8 <= 1 || b % 8 == 7) mc::at(1, {a, m, b});
        for (int n = 0; n <= (T ? 4200 : 700); n++)
            for (int p = 0; p < (T ? 6 : 3); p++) mc::at(3, {a, n, p});
        for (int n = 1; n <= (T ? 3 * bs : bs + 9); n += T ? 1 : 3) mc::at(5, {a, n});
        for (int k = 12; k <= (T ? 23 : 17); k++)
            for (int d : {-9, -8, -1, 0, 1, 8}) mc::at(1, {a, 9, 8 * (1 << k) + d});
        for (int k = 10; k <= (T ? 24 : 19); k++)
            for (int d = -1; d <= 1; d++) mc::at(3, {a, (1 << k) + d, 0});
    }
    mc::offsets([&] {
        for (int a = 12; a < 16; a++) {
            int bs = (int)block_size[a];
            for (int n = 1; n <= (T ? 2 * bs + 20 : bs + 10); n += T ? 1 : 3) mc::at(3, {a, n, 0});
            for (int m : {5, bs + 1}) for (int b = 8; b <= (T ? 24 * bs : 16 * bs + 9); b += T ? 1 : 8 * 5 + 1) mc::at(1, {a, m, b});
        }
    });
    for (int a = 12; a < 16; a++)
        for (int k = 0; k < 2; k++) mc::at(6, {a, k, T ? 1 << 20 : 66000});
}
void selfcheck() { hash_selfcheck(); }
