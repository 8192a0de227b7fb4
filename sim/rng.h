#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <cmath>

inline uint64_t Mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t HashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return Mix64(h);
}
inline double U01(uint64_t h) { return (h >> 11) * (1.0 / 9007199254740992.0); }

// Deterministic generator: the only source of choice in the simulator.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(Mix64(seed ^ 0x5bd1e995)) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    double u() { return U01(next()); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    int range(int a, int b) {  // inclusive
        if (b <= a) return a;
        return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1));
    }
    bool p(double prob) { return u() < prob; }
    template <typename T>
    const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template <typename T>
    void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
    }
};
