#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); } // inclusive
  bool chance(int num, int den) { return below(den) < (uint64_t)num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
