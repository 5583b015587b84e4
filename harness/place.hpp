// Where the buffers of a case start: 0, or a base offset (1..15) past the alignment malloc gives. With a base offset,
// every second buffer of a case gets it and the others get differing ones.
#pragma once
struct Place {
    unsigned base = 0, made = 0;
    unsigned next() {
        if (!base) return 0;
        unsigned k = made++;
        return k % 2 ? (base * 3 + k / 2) % 16 : base;
    }
};
inline Place &place() {
    static thread_local Place p;
    return p;
}
