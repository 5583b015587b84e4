// C25: every byte string up to a length over {0, 1, 'a', 255}, every constructor and helper, every conversion and trim,
// and every sequence of trims, copies and appends up to a depth, against a plain byte vector.
#include "mc.hpp"
#include "window.hpp"
#include <memory>
#include <sstream>
#include "api.hpp"
#include "longrun.hpp"
#include "dirty.hpp"
#include "libpgfe/sequential_data.hpp"
#include "libpgfe/utils.hpp"
using namespace ref;
using libpgfe::SequentialData;

static std::string hexs(const Bytes &b) {
    static const char dg[] = "0123456789abcdef";
    std::string s;
    for (uint8_t x : b) s += dg[x >> 4], s += dg[x & 15];
    return s;
}
static void same(const SequentialData &d, const Bytes &b, const std::string &how) {
    mc::count("executions")++;
    mc::outcome(b.data(), b.size());
    std::string what = mc::strf("%s (want %zu bytes %s)", how.c_str(), b.size(), mc::hex(b.data(), b.size()).c_str());
    CHECK(d.size() == b.size() && d.length() == b.size() && (b.empty() || !memcmp(d.data(), b.data(), b.size())), "%s: holds %zu bytes %s", what.c_str(), d.size(), mc::hex(d.data(), d.size()).c_str());
    std::string s((const char *)b.data(), b.size());
    CHECK(d.to_str() == s && d.to_str(false) == s && d.to_str(true) == s, "%s: to_str gives other bytes", what.c_str());
    CHECK(d.hex_str() == hexs(b), "%s: hex_str() = %.80s", what.c_str(), d.hex_str().c_str());
    const pgfe_encode_t *p = d.to_pgfe_seq();
    CHECK(p && (b.empty() || !memcmp(p, b.data(), b.size())), "%s: to_pgfe_seq() points to other bytes", what.c_str());
    size_t n = 12345;
    p = d.to_pgfe_seq(n);
    CHECK(n == b.size() && p && (b.empty() || !memcmp(p, b.data(), b.size())), "%s: to_pgfe_seq(length) gives length %zu", what.c_str(), n);
    std::ostringstream os;
    os << d;
    CHECK(os.str() == s, "%s: streams other bytes", what.c_str());
}
static Bytes left(Bytes b) {
    size_t i = 0;
    while (i < b.size() && !b[i]) i++;
    return Bytes(b.begin() + (long)i, b.end());
}
static Bytes right(Bytes b) {
    while (!b.empty() && !b.back()) b.pop_back();
    return b;
}
static void trims(const SequentialData &orig, const Bytes &b, const std::string &how) {
    SequentialData d(orig);
    SequentialData t = d.trim(), l = d.trim_left(), r = d.trim_right();
    same(t, left(right(b)), how + ".trim()");
    same(l, left(b), how + ".trim_left()");
    same(r, right(b), how + ".trim_right()");
    same(d, b, how + " after the trims that copy");
    SequentialData t2(d), l2(d), r2(d);
    t2.trim_();
    l2.trim_left_();
    r2.trim_right_();
    same(t2, left(right(b)), how + ".trim_()");
    same(l2, left(b), how + ".trim_left_()");
    same(r2, right(b), how + ".trim_right_()");
    same(d, b, how + " after its copies were trimmed");
    same(orig, b, how + " original");
}
static void everything(const Bytes &b, int fill) {
    dirty::fill_kind() = fill;
    mc::count("states")++;
    Exact x(b.data(), b.size());
    std::string s((const char *)b.data(), b.size());
    bool cs = !memchr(b.data(), 0, b.size());
    {
        dirty::Object<SequentialData> a(fill, (const pgfe_encode_t *)x.p, x.n);
        same(*a, b, "SequentialData(pointer, size)");
        dirty::Object<SequentialData> c(fill, *a);
        same(*c, b, "copy");
        dirty::Object<SequentialData> e(fill, (const SequentialData *)a.p);
        same(*e, b, "SequentialData(pointer to another)");
        trims(*a, b, "SequentialData(pointer, size)");
        // copies are independent, both ways
        c->push_back(7);
        if (!b.empty()) (*e)[0] = (pgfe_encode_t)(b[0] + 1);
        same(*a, b, "original after its copies changed");
        dirty::Object<SequentialData> f(fill, *a);
        a->clear();
        a->append(3, (pgfe_encode_t)9);
        same(*f, b, "copy after the original changed");
        dirty::Object<SequentialData> g(fill, static_cast<SequentialData &&>(*f));
        same(*g, b, "moved-to");
    }
    {
        dirty::Object<SequentialData> a(fill, std::string(s));
        same(*a, b, "SequentialData(std::string)");
        std::string s2 = s;
        std::unique_ptr<SequentialData> h(libpgfe::utils::to_sequential_data(s2)), h2(libpgfe::utils::to_sequential_data(x.p, x.n));
        same(*h, b, "to_sequential_data(std::string)");
        same(*h2, b, "to_sequential_data(pointer, size)");
        std::string hx = hexs(b);
        std::unique_ptr<SequentialData> h3(libpgfe::utils::sequential_data::from_hex_string(hx.c_str())), h4(libpgfe::utils::sequential_data::from_hex_string(hx));
        same(*h3, b, "from_hex_string(C string)");
        same(*h4, b, "from_hex_string(std::string)");
    }
    if (cs) {
        Bytes zb = b;
        zb.push_back(0);
        Exact z(zb.data(), zb.size());
        dirty::Object<SequentialData> a(fill, (const char *)z.p);
        same(*a, b, "SequentialData(C string)");
        std::unique_ptr<SequentialData> h(libpgfe::utils::to_sequential_data((const char *)z.p));
        same(*h, b, "to_sequential_data(C string)");
    }
    if (b.empty()) {
        dirty::Object<SequentialData> a(fill);
        same(*a, b, "SequentialData()");
    }
}
// One object, one byte changed between two conversions; and a copy of it in between.
static void reused(size_t n) {
    Bytes b = pattern(4, n);
    SequentialData d(b.data(), n);
    same(d, b, "before");
    for (size_t i = 0; i < n; i++) {
        b[i] ^= (uint8_t)(1 << i % 8);
        switch (i % 4) {
        case 0: d[i] = b[i]; break;
        case 1: *(d.begin() + (long)i) = b[i]; break;
        case 2: d.replace(i, 1, 1, b[i]); break;
        default: d.assign(b.data(), n);
        }
        same(d, b, mc::strf("byte %zu of %zu changed in place", i, n));
        if (i % 3 == 0) {
            SequentialData c(d);
            same(c, b, "copy");
            c[i] ^= 0x55;
            Bytes b2 = b;
            b2[i] ^= 0x55;
            same(c, b2, "copy changed");
            same(d, b, "original of a changed copy");
            c.assign(d.data(), d.size());
            same(c, b, "assigned copy");
        }
    }
}
// One object, count conversions (0), or count bytes appended one at a time (1).
static void longrun(int what, uint64_t count) {
    Bytes b = pattern(4, 5), m = pattern(0, 1 << 12);
    SequentialData d(b.data(), b.size());
    for (uint64_t i = 1; i <= count; i++) {
        if (i % 4096 == 0) mc::tick();
        if (what == 0) {
            if (i % 3 == 0) d[i % 5] ^= 1, b[i % 5] ^= 1;
            if (i % 11 == 0) d.trim_(), d.assign(b.data(), b.size());
            same(d, b, mc::strf("conversion number %" PRIu64, i));
            continue;
        }
        d.push_back(m[i % m.size()]), b.push_back(m[i % m.size()]);
        if (landmark(i)) same(d, b, mc::strf("%" PRIu64 " bytes appended one at a time", i));
    }
}
static const uint8_t sym[4] = {0, 1, 'a', 255};
// Histories: the operations change one object and its model.
enum { TRIM, TRIML, TRIMR, TRIMC, COPY, ADD0, ADDA, PRE0, SET, ASSIGN, GROW, NOPS };
static const char *const op_name[NOPS] = {"trim_()", "trim_left_()", "trim_right_()", "trim() of a copy", "copy", "append 0", "append 'a'", "insert 0", "change the last byte in place", "assign as many other bytes", "append 20 zero bytes and 1"};
static void dfs(const SequentialData &d, const Bytes &b, int depth, const std::string &how) {
    mc::count("states")++;
    if (!depth) return;
    for (int op = 0; op < NOPS; op++) {
        mc::count("transitions")++;
        SequentialData n(d);
        Bytes m = b;
        if (op == SET || op == ASSIGN) same(n, b, how); // the same object is converted before and after
        switch (op) {
        case TRIM: n.trim_(), m = left(right(m)); break;
        case TRIML: n.trim_left_(), m = left(m); break;
        case TRIMR: n.trim_right_(), m = right(m); break;
        case TRIMC: {
            SequentialData t = n.trim();
            same(t, left(right(m)), how + " trim()");
            break;
        }
        case COPY: {
            SequentialData t(&n);
            t.push_back(1);
            break;
        }
        case ADD0: n.push_back(0), m.push_back(0); break;
        case ADDA: n.push_back('a'), m.push_back('a'); break;
        case SET: if (!m.empty()) n[n.size() - 1] ^= 1, m.back() ^= 1; break;
        case ASSIGN:
            for (auto &x : m) x = (uint8_t)(x * 5 + 1);
            n.assign(m.data(), m.size());
            break;
        case PRE0: n.insert((size_t)0, (size_t)1, (pgfe_encode_t)0), m.insert(m.begin(), 0); break;
        default: n.append(20, 0), n.push_back(1), m.insert(m.end(), 20, 0), m.push_back(1); break;
        }
        std::string h = how + ", " + op_name[op];
        same(n, m, h);
        dfs(n, m, depth - 1, h);
    }
}
// More than 2^31 and 2^32 bytes.
static void gigantic(size_t n, int what) {
    const size_t W = 4096 * 257;
    Bytes b = pattern(4, W);
    for (auto &x : b) x |= 1;
    Window in((n / W + 1) * W, W);
    mc::count("states")++;
    mc::outcome(&n, sizeof n, (uint64_t)what);
    auto content = [&](const SequentialData &d, size_t from, const char *how) {
        for (size_t i = 0; i < d.size(); i += W)
            CHECK(!memcmp(d.data() + i, in.p + from + i, std::min(W, d.size() - i)), "SequentialData of %zu bytes, %s: wrong bytes after %zu", n, how, i);
    };
    if (what == 0) { // construction
        memcpy(in.p, b.data(), W);
        SequentialData d(in.p, n);
        CHECK(d.size() == n, "SequentialData(%zu bytes) has %zu", n, d.size());
        content(d, 0, "constructed");
        size_t l = 0;
        CHECK(d.to_pgfe_seq(l) == d.data() && l == n, "to_pgfe_seq(size) of %zu bytes says %zu", n, l);
        d.trim_();
        CHECK(d.size() == n, "trim_() of %zu bytes without zeros leaves %zu", n, d.size());
    }
    else if (what == 1) { // a text
        memcpy(in.p, b.data(), W);
        in.end_text(n);
        SequentialData d((const char *)in.p);
        CHECK(d.size() == n, "SequentialData(text of %zu characters) has %zu bytes", n, d.size());
        content(d, 0, "constructed from a text");
    }
    else { // zeros before or after
        SequentialData d;
        d.resize(n, 0);
        size_t at = what == 2 ? n - 3 : 2;
        d[at] = 7;
        what == 2 ? d.trim_left_() : d.trim_right_();
        CHECK(d.size() == 3 && d[what == 2 ? 0 : 2] == 7, "%s with %zu zeros leaves %zu bytes", what == 2 ? "trim_left_()" : "trim_right_()", n - 3, d.size());
    }
}
// kind 1: v = length, first symbol.  kind 2: v = length, pattern, leading zeros, trailing zeros.  kind 3: v = depth, first op pair
void run_case(const mc::Case &c) {
    if (c.kind == 1) {
        int n = (int)c.v[0];
        for (int x = 0; x < 1 << (n ? 2 * (n - 1) : 0); x++) {
            Bytes b((size_t)n);
            for (int i = 0; i < n; i++) b[(size_t)i] = i ? sym[x >> (2 * (i - 1)) & 3] : sym[c.v[1]];
            everything(b, x % 2 ? 0xA5 : 0);
        }
    }
    else if (c.kind == 2) {
        Bytes b((size_t)c.v[2], 0), m = pattern((int)c.v[1], (size_t)c.v[0]);
        b.insert(b.end(), m.begin(), m.end());
        b.insert(b.end(), (size_t)c.v[3], 0);
        everything(b, 0xA5);
    }
    else if (c.kind == 6) longrun((int)c.v[0], (uint64_t)c.v[1]);
    else if (c.kind == 5) reused((size_t)c.v[0]);
    else if (c.kind == 4) gigantic((size_t)c.v[0], (int)c.v[1]);
    else {
        Bytes b = c.v[1] == 0 ? Bytes() : pattern((int)c.v[1], 14);
        dirty::fill_kind() = 0xA5;
        dfs(SequentialData(b.data(), b.size()), b, (int)c.v[0], mc::strf("start %" PRId64, c.v[1]));
    }
}
std::string describe(const mc::Case &c) {
    if (c.kind == 6) return mc::strf("one SequentialData, %" PRId64 " %s", c.v[1], c.v[0] ? "bytes appended one at a time" : "conversions");
    if (c.kind == 1) return mc::strf("SequentialData of every string of %" PRId64 " bytes over {0, 1, 'a', 255} that begins with symbol %" PRId64, c.v[0], c.v[1]);
    if (c.kind == 2) return mc::strf("SequentialData of %" PRId64 " bytes (pattern %" PRId64 ") between %" PRId64 " and %" PRId64 " zero bytes", c.v[0], c.v[1], c.v[2], c.v[3]);
    if (c.kind == 4) return mc::strf("SequentialData of %" PRId64 " bytes: %s", c.v[0], c.v[1] == 0 ? "constructed" : c.v[1] == 1 ? "from a text" : c.v[1] == 2 ? "leading zeros" : "trailing zeros");
    if (c.kind == 5) return mc::strf("one SequentialData of %" PRId64 " bytes, each byte changed in turn", c.v[0]);
    return mc::strf("SequentialData: every sequence of up to %" PRId64 " operations, start %" PRId64, c.v[0], c.v[1]);
}
void enumerate() {
    bool T = mc::thorough();
    if (mc::part() == 2) {
        const int64_t G = 1ll << 30;
        for (int64_t n : {4 * G + 5, 2 * G + 3})
            for (int w = 0; w < 4; w++) if (T || n > 3 * G) mc::at(4, {n, w});
        return;
    }
    for (int n = 0; n <= (T ? 8 : 6); n++)
        for (int s = 0; s < (n ? 4 : 1); s++) mc::at(1, {n, s});
    for (int64_t n : {0, 1, 7, 13, 14, 15, 16, 17, 31, 32, 33, 255, 256, 4096, 1 << 20})
        for (int pat : {0, 1, 2, 5})
            for (int lead : {0, 1, 2, 40})
                for (int trail : {0, 1, 2, 40})
                    if (n < 4097 || (lead == 2 && trail == 2)) mc::at(2, {n, pat, lead, trail});
    for (int64_t n = 0; n <= (T ? 300 : 100); n++) mc::at(5, {n});
    for (int s : {0, 1, 2, 3, 4}) mc::at(3, {T ? 6 : 4, s});
    mc::offsets([&] {
        for (int64_t n = 1; n <= (T ? 300 : 70); n++) mc::at(2, {n, 0, n % 3, n % 2});
    });
    for (int what = 0; what < 2; what++) mc::at(6, {what, T ? 1 << 20 : 66000});
}
void selfcheck() {}
