// The message of the checks on sizes past 2^29, 2^31 and 2^32 bytes, and its digests (data/long_digests.txt).
#pragma once
#include <fstream>
#include "ref/hash.hpp"
#include "window.hpp"
namespace huge {
static const size_t WIN = 4096 * 257; // not a power of two, so that a wrong offset shows
static const size_t MAXLEN = (1ull << 32) + (1ull << 20);
inline Window &window() {
    static Window *w = [] {
        Window *x = new Window(MAXLEN, WIN);
        ref::Bytes b = ref::pattern(0, WIN);
        memcpy(x->p, b.data(), WIN);
        return x;
    }();
    return *w;
}
inline std::map<std::pair<std::string, uint64_t>, std::string> &expected() {
    static std::map<std::pair<std::string, uint64_t>, std::string> m;
    if (m.empty()) {
        std::ifstream f(VERIF_DIR "/data/long_digests.txt");
        std::string alg, hex;
        uint64_t n;
        while (f >> alg >> n >> hex) m[{alg, n}] = hex;
    }
    return m;
}
static const int64_t B29 = 1ll << 29, B31 = 1ll << 31, B32 = 1ll << 32;
inline const std::string &digest_of(const std::string &key, uint64_t n) {
    auto it = expected().find({key, n});
    if (it == expected().end()) {
        fprintf(stderr, "no expected digest for %s %zu\n", key.c_str(), (size_t)n);
        abort();
    }
    return it->second;
}
} // namespace huge
