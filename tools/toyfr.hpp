#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <string>
#include <vector>
#include <stdexcept>
#include <iostream>
#include <thread>
#include <gmp.h>
#include <sys/types.h>
// prime field modulo Q with the scalar-field interface the transform uses
template <uint64_t Q> struct ToyFr {
    struct Element { uint64_t v; };
    Element z, o, n;
    static ToyFr field;
    ToyFr() { z.v = 0; o.v = 1; n.v = Q - 1; }
    static void pause() { for (volatile int i = 0; i < 20; i++); }
    Element &zero() { return z; } Element &one() { return o; } Element &negOne() { return n; }
    void copy(Element &r, const Element &a) { r.v = a.v; pause(); }
    void add(Element &r, const Element &a, const Element &b) { r.v = (a.v + b.v) % Q; pause(); }
    void sub(Element &r, const Element &a, const Element &b) { r.v = (a.v + Q - b.v) % Q; pause(); }
    void mul(Element &r, const Element &a, const Element &b) { r.v = a.v % Q * (b.v % Q) % Q; pause(); }
    void exp(Element &r, const Element &b, uint8_t *s, unsigned n) { uint64_t x = 1, y = b.v; for (unsigned i = 0; i < n * 8; i++) { if (s[i >> 3] >> (i & 7) & 1) x = x * y % Q; y = y * y % Q; } r.v = x; }
    int eq(const Element &a, const Element &b) { return a.v == b.v; }
    int isZero(const Element &a) { return a.v == 0; }
    std::string toString(const Element &a, uint32_t radix = 10) { return std::to_string(a.v); }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.v); }
    void fromMpz(Element &r, const mpz_t a) { r.v = mpz_fdiv_ui(a, Q); }
};
template <uint64_t Q> ToyFr<Q> ToyFr<Q>::field;
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
