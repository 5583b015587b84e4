// A small model checker for threads. The library and the harness are compiled with clang's thread instrumentation but
// linked with tsrt.cpp instead of the ThreadSanitizer runtime: it runs the threads one at a time, chooses at every
// synchronisation operation who goes on, explores every such choice depth first (one forked process per schedule), and
// checks every access made inside the library for a data race by vector clocks, whichever order the schedule gave.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

extern "C" __thread int tsrt_in_lib; // accesses count only while this is positive

namespace tsrt {
struct Stats {
    uint64_t schedules = 0, points = 0, states = 0, accesses = 0, capped = 0;
    int bound = -1; // with capped: all schedules with fewer preemptions than this were explored
};
// In each schedule's process: setup() in the main thread, then body(0..n-1) in threads of their own, then check().
// fail(msg) may be called anywhere inside. Explores all schedules with at most `bound` preemptions (-1: any number).
// Returns an empty string, or what failed and under which schedule.
std::string explore(int n, const std::function<void()> &setup, const std::function<void(int)> &body, const std::function<void()> &check, int bound, uint64_t cap, Stats &st);
[[noreturn]] void fail(const char *msg);
extern void (*on_schedule)(); // called before each schedule
extern double time_scale; // how much more time than the quick check may take
uint64_t schedule_hash(); // of the last schedule explored
} // namespace tsrt
