// Monitors that call winpty's own helpers directly.  Built with the flags of the modules under test (16-bit wchar_t, sanitizers).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
struct UnitHost { void (*viol)(const char *key, const char *text); void (*stat)(const char *name, uint64_t n); };
extern const UnitHost *gHost;
void bad(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern int gBad;
inline void count(const char *n, uint64_t k = 1) { gHost->stat(n, k); }
extern uint64_t gDigest;                 // of everything drawn: identifies the inputs of a case
struct Rnd { uint64_t s; explicit Rnd(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; gDigest = gDigest * 31 + s; return s * 0x2545F4914F6CDD1Dull; }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) % n) : 0; } int range(int a, int b) { return a + (int)below(b - a + 1); } bool chance(double p) { return below(1000000) < p * 1000000; } };
// A block of exactly n bytes on the heap: one byte past it is caught by the sanitizer.
template <class T> struct Exact { T *p; size_t n; explicit Exact(size_t n) : p(new T[n]), n(n) {} ~Exact() { delete[] p; } Exact(const Exact &) = delete; };
