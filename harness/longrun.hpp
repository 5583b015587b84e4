// How often a long history repeats one call: past the wrap of an 8- and a 16-bit count, with the neighbours of the powers
// of two at which results are compared.
#pragma once
#include <cstdint>
static inline bool landmark(uint64_t i) { // near a power of two, or near a multiple of 2^16
    if (i < 300) return true;
    for (uint64_t d = 0; d < 3; d++)
        if (((i - d) & (i - d - 1)) == 0 || ((i + d) & (i + d - 1)) == 0) return true;
    uint64_t r = (i + 2) % 65536;
    return r < 5;
}
