// Reference model of the hex text functions.
#pragma once
#include "hash.hpp"
namespace ref {
inline int hexval(unsigned char c) {
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
inline std::string digits_of(const std::string &s) {
    std::string d;
    for (char c : s) if (hexval((unsigned char)c) >= 0) d += c;
    return d;
}
inline Bytes bytes_of(const std::string &d) {
    Bytes b;
    size_t i = 0;
    if (d.size() % 2) b.push_back((uint8_t)hexval((unsigned char)d[i++]));
    for (; i < d.size(); i += 2) b.push_back((uint8_t)(hexval((unsigned char)d[i]) << 4 | hexval((unsigned char)d[i + 1])));
    return b;
}
} // namespace ref
