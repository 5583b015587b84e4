// Bounded exhaustive exploration framework: enumerates cases (or state graphs), shards them over
// processes, marks the case in progress so that a crash or hang can be attributed and replayed.
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include "place.hpp"

namespace mc {

struct Case {
    int64_t kind = 0, n = 0;
    int64_t v[14] = {0};
};

struct Failure {
    std::string msg;
};

struct Marker {
    volatile uint64_t seq;
    volatile uint64_t active;
    Case c;
};

inline Marker *&marker() {
    static Marker local;
    static Marker *m = &local;
    return m;
}
inline std::map<std::string, uint64_t> &counters() {
    static std::map<std::string, uint64_t> c;
    return c;
}
// Counters are looked up by name once, through a reference kept by the caller when hot.
inline uint64_t &count(const char *name) {
    return counters()[name];
}
inline std::unordered_set<uint64_t> &outcomes() {
    static std::unordered_set<uint64_t> s;
    return s;
}
inline uint64_t fnv(const void *p, size_t n, uint64_t seed = 1) {
    const unsigned char *b = (const unsigned char *)p;
    uint64_t h = (seed + 0x632BE59BD9B4E019ull) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 31;
    h = (h ^ n) * 0xBF58476D1CE4E5B9ull;
    h ^= h >> 27;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h ^ (h >> 29);
}
inline void outcome(const void *p, size_t n, uint64_t salt = 0) {
    if (outcomes().size() < 400000) outcomes().insert(fnv(p, n, salt));
}
inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char buf[2048];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}
inline std::string hex(const void *p, size_t n, size_t max = 48) {
    static const char d[] = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n && i < max; i++) {
        s += d[((const uint8_t *)p)[i] >> 4];
        s += d[((const uint8_t *)p)[i] & 15];
    }
    if (n > max) s += "...";
    return s;
}
[[noreturn]] inline void fail(const std::string &m) {
    throw Failure{m};
}
#define CHECK(cond, ...)                                                                                               \
    do {                                                                                                               \
        if (!(cond)) mc::fail(mc::strf(__VA_ARGS__));                                                                  \
    } while (0)

inline bool &thorough() {
    static bool t = false;
    return t;
}
// Which part of a harness a job runs (0: all of it).
inline int &part() {
    static int p = 0;
    return p;
}
// Tell the hang detector that a long case is making progress.
inline void tick() {
    marker()->seq = marker()->seq + 1;
}
inline std::string json_escape(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        }
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
            o += ch;
    }
    return o;
}
inline std::string case_str(const Case &c) {
    std::string s = std::to_string(c.kind) + ":";
    for (int i = 0; i < c.n; i++) s += (i ? "," : "") + std::to_string(c.v[i]);
    return s;
}
inline Case parse_case(const char *s) {
    Case c;
    char *e;
    c.kind = strtoll(s, &e, 10);
    while (*e == ':' || *e == ',') {
        if (!e[1]) break;
        c.v[c.n++] = strtoll(e + 1, &e, 10);
    }
    return c;
}

struct Runner {
    int64_t offset = 0; // of the buffers of the cases enumerated now
    uint64_t shard = 0, shards = 1, index = 0, failures = 0, sampled = 0;
    std::vector<std::string> samples;
    std::string only; // replay
};
inline Runner &R() {
    static Runner r;
    return r;
}

} // namespace mc

// Provided by each harness:
void run_case(const mc::Case &c);  // decide one case; throw mc::Failure through CHECK
void enumerate();                  // call mc::at for every case within the bounds of the tier
std::string describe(const mc::Case &c);
void selfcheck(); // print reference-model values for the conformance check ("REF name arg hex")

namespace mc {

inline bool guarded(const Case &c, std::string &msg) {
    Marker *m = marker();
    m->c = c;
    m->active = 1;
    m->seq = m->seq + 1;
    bool ok = true;
    try {
        Case d = c;
        place() = {(unsigned)(c.kind / 1000), 0};
        d.kind %= 1000;
        run_case(d);
    }
    catch (const Failure &f) {
        msg = f.msg;
        ok = false;
    }
    catch (const std::exception &e) {
        msg = std::string("unexpected exception: ") + e.what();
        ok = false;
    }
    place() = {};
    m->active = 0;
    return ok;
}

// The cases that f enumerates, with buffers 1..15 bytes past the alignment malloc gives.
template <class F> void offsets(F f) {
    for (R().offset = 1; R().offset < 16; R().offset++) f();
    R().offset = 0;
}
inline std::string describe_(Case c) {
    int64_t off = c.kind / 1000;
    c.kind %= 1000;
    return describe(c) + (off ? strf(", buffers %" PRId64 " (and other numbers of) bytes past their alignment", off) : "");
}

// One case of the enumeration. Returns after running it, if it belongs to this shard.
inline void at(int64_t kind, std::initializer_list<int64_t> vs) {
    Runner &r = R();
    uint64_t idx = r.index++;
    if (idx % r.shards != r.shard || r.failures >= 3) return;
    Case c;
    c.kind = kind + 1000 * r.offset;
    for (int64_t x : vs) c.v[c.n++] = x;
    count("cases")++;
    if ((r.samples.size() < 2 && idx >= r.sampled) || idx == 5000 + r.shard) {
        r.samples.push_back(case_str(c) + " " + describe_(c));
        r.sampled = idx + 100;
    }
    std::string msg;
    if (!guarded(c, msg)) {
        r.failures++;
        printf("MCFAIL {\"case\": \"%s\", \"desc\": \"%s\", \"msg\": \"%s\"}\n", case_str(c).c_str(),
               json_escape(describe_(c)).c_str(), json_escape(msg).c_str());
        fflush(stdout);
    }
}

inline int main_(int argc, char **argv) {
    const char *mark = nullptr, *outc = nullptr, *one = nullptr;
    Runner &r = R();
    setvbuf(stdout, nullptr, _IOLBF, 0);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") thorough() = !strcmp(argv[++i], "thorough");
        else if (a == "--part") part() = atoi(argv[++i]);
        else if (a == "--shard") sscanf(argv[++i], "%" SCNu64 "/%" SCNu64, &r.shard, &r.shards);
        else if (a == "--mark") mark = argv[++i];
        else if (a == "--outcomes") outc = argv[++i];
        else if (a == "--case") one = argv[++i];
        else if (a == "--selfcheck") {
            selfcheck();
            return 0;
        }
        else if (a == "--describe") {
            printf("%s\n", describe_(parse_case(argv[++i])).c_str());
            return 0;
        }
    }
    if (mark) {
        int fd = open(mark, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Marker)) < 0) return 3;
        void *p = mmap(nullptr, sizeof(Marker), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 3;
        marker() = (Marker *)p;
        close(fd);
    }
    if (one) {
        Case c = parse_case(one);
        std::string msg;
        if (guarded(c, msg)) {
            printf("MCPASS %s\n", one);
            return 0;
        }
        printf("MCFAIL {\"case\": \"%s\", \"desc\": \"%s\", \"msg\": \"%s\"}\n", one, json_escape(describe_(c)).c_str(),
               json_escape(msg).c_str());
        return 1;
    }
    enumerate();
    std::string s = "MCRESULT {\"counters\": {";
    bool first = true;
    for (auto &kv : counters()) {
        s += (first ? "\"" : ", \"") + kv.first + "\": " + std::to_string(kv.second);
        first = false;
    }
    s += "}, \"enumerated\": " + std::to_string(r.index) + ", \"failures\": " + std::to_string(r.failures) + ", \"samples\": [";
    for (size_t i = 0; i < r.samples.size(); i++) s += (i ? ", \"" : "\"") + json_escape(r.samples[i]) + "\"";
    s += "]}";
    if (outc) {
        FILE *f = fopen(outc, "wb");
        if (f) {
            for (uint64_t h : outcomes()) fwrite(&h, 8, 1, f);
            fclose(f);
        }
    }
    puts(s.c_str());
    return r.failures ? 1 : 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char **argv) {
    return mc::main_(argc, argv);
}
#endif
