// Interrupts. The library and the harness are compiled with clang's thread instrumentation but linked with irq.cpp: every
// memory access and every function entry and exit inside the library is a point at which a handler can be run on the same
// thread. Which points can matter for a given handler is worked out from what both sides access (partial-order reduction).
#pragma once
#include <cstdint>
#include <vector>
#include "tsrt.hpp" // only its tsrt_in_lib: points count only while this is positive

namespace irq {
// One execution of the program to be interrupted, whose accesses are recorded (begin, end), and one of the handler.
// Freed memory is not used again until forget(), so an address means one thing.
void record_program();
void record_handler();
void record_stop();
void forget();
// The points of the recorded program at which it is to be interrupted: every function entry and exit (the first `calls`
// of them) and every access to memory that the handler also accesses, one of the two writing it.
std::vector<uint32_t> points(uint64_t &total, uint64_t &conflicts, size_t calls);
// Runs handler() at point number `at` (from 0) counted from now on. What it accesses in static and thread-local memory
// is added to what is known of the handler.
void arm(uint32_t at, void (*handler)());
bool disarm();              // whether the handler has run
bool grown();               // whether anything was added since the last call
extern const char *blocked; // set when code inside a handler waits for what the interrupted code holds
uint32_t where();           // code offset of the point at which the handler ran last
} // namespace irq
