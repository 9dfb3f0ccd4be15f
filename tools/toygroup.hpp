#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <stdexcept>
#ifdef _OPENMP
#include <omp.h>
#endif
// additive group of integers modulo a 61-bit prime
struct ToyGroup {
    struct Point { uint64_t v; }; struct PointAffine { uint64_t v; };
    static const uint64_t M = 2305843009213693951ULL;
    Point z0; PointAffine z1;
    ToyGroup() { z0.v = 0; z1.v = 0; }
    Point &zero() { return z0; } PointAffine &zeroAffine() { return z1; }
    template <class R, class A, class B> void add(R &r, const A &a, const B &b) { r.v = (a.v + b.v) % M; }
    template <class R, class A, class B> void sub(R &r, const A &a, const B &b) { r.v = (a.v + M - b.v) % M; }
    template <class R, class A> void dbl(R &r, const A &a) { r.v = (a.v * 2) % M; }
    template <class R, class A> void neg(R &r, const A &a) { r.v = (M - a.v) % M; }
    template <class R, class A> void copy(R &r, const A &a) { r.v = a.v; }
    template <class A> bool isZero(const A &a) { return a.v == 0; }
    template <class A, class B> bool eq(const A &a, const B &b) { return a.v == b.v; }
    template <class B> void mulByScalar(Point &r, const B &b, uint8_t *s, unsigned n) { Point t; uint64_t x = b.v; t.v = 0; for (int i = 8 * (int)n - 1; i >= 0; i--) { t.v = (t.v * 2) % M; if (s[i / 8] >> (i % 8) & 1) t.v = (t.v + x) % M; } r = t; }
};
struct NoField {};
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
