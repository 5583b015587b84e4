// The harness owns the clock: every way the library could ask for the time is answered from here.
#pragma once
#include <cerrno>
#include <cstdlib>
#include <ctime>
#include <sys/time.h>

namespace clk {
inline time_t &now() {
    static time_t t = 0;
    return t;
}
// The clock moves one second forward just before the read with this number (counted from the last arm()); -1: never.
inline int &tick_at() {
    static int t = -1;
    return t;
}
inline int &reads() {
    static int r = 0;
    return r;
}
inline void arm(int tick) {
    reads() = 0;
    tick_at() = tick;
}
inline time_t read() {
#ifndef TSRT // with threads the clock stands still
    if (reads()++ == tick_at()) now()++;
#endif
    return now();
}
// The time zone of the process. No result may depend on it.
static const char *const zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "XYZ-14", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", "AEST-10AEDT,M10.1.0,M4.1.0/3", "ABC12:34:56", ":nowhere"};
constexpr int nzones = 8;
// Around the clock changes of these zones in 2026, around midnight and New Year (UTC).
static const time_t zone_points[] = {1772953200, 1793512800, 1774746000, 1792890000, 1772940660, 1793500260, 1775318400, 1791043200, 1767225600, 1798761600, 1709164800, 1709251200, 1767225600 - 14 * 3600, 1767225600 + 5 * 3600, 951782400};
inline void zone(int k) {
    setenv("TZ", zones[k % nzones], 1);
    tzset();
}
} // namespace clk
extern "C" {
time_t time(time_t *out) noexcept {
    time_t t = clk::read();
    if (out) *out = t;
    return t;
}
int clock_gettime(clockid_t, struct timespec *ts) noexcept {
    ts->tv_sec = clk::read();
    ts->tv_nsec = 999999999;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    tv->tv_sec = clk::read();
    tv->tv_usec = 999999;
    return 0;
}
int timespec_get(struct timespec *ts, int base) noexcept {
    ts->tv_sec = clk::read();
    ts->tv_nsec = 999999999;
    return base;
}
}
