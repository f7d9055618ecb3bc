// Small deterministic generators (never std:: distributions: their output is not pinned down).
#pragma once
#include <cstdint>
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo + 1))); }
    bool chance(double p) { return double(next() >> 11) / 9007199254740992.0 < p; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9E3779B97F4A7C15ULL)); r.next(); return r.next() ^ b; }
inline uint64_t fnv(const void *p, uint64_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (uint64_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
