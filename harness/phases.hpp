// One long call, many short ones, one of a length between: histories in which an implementation that keeps, grows or gives
// back something along the way would show it.
#pragma once
#include "mc.hpp"
namespace phases {
static const int64_t LARGE[] = {200, 1200, 3000, 20000}, SMALL[] = {0, 3, 20, 70}, MID[] = {0, 1, 40, 80, 130, 520, 1100, 2100, 5000, 30000};
static const int64_t TIMES[] = {2, 3, 4, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 255, 256, 257, 300, 500, 512, 1000, 1024};
// f(large, small, times); every TIMES only with one pair of lengths unless `all`
template <class F> static void each(bool all, int64_t upto, F f) {
    for (int64_t l : LARGE)
        for (int64_t s : SMALL)
            for (int64_t n : TIMES)
                if (all || n <= upto || (l == 3000 && s == 3)) f(l, s, n);
}
static std::string text(const char *what, int64_t l, int64_t s, int64_t n) {
    return mc::strf("%s of %" PRId64 ", then %" PRId64 " times of %" PRId64 ", then of each length between", what, l, n, s);
}
} // namespace phases
