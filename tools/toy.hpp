// A small prime field with the interface of the generated raw field classes.
#ifndef TOY_HPP
#define TOY_HPP
#include <cstdint>
#include <cstdlib>
#include <string>
#include <stdexcept>
#include <gmp.h>
struct Toy {
    struct Element { uint64_t v; };
    static const uint64_t P = 2147483647ULL;   // 3 mod 4
    Element z, o, n;
    static Toy field;
    Toy() { z.v = 0; o.v = 1; n.v = P - 1; }
    Element &zero() { return z; } Element &one() { return o; } Element &negOne() { return n; }
    void copy(Element &r, const Element &a) { r.v = a.v; }
    void swap(Element &a, Element &b) { uint64_t t = a.v; a.v = b.v; b.v = t; }
    void add(Element &r, const Element &a, const Element &b) { r.v = (a.v + b.v) % P; }
    void sub(Element &r, const Element &a, const Element &b) { r.v = (a.v + P - b.v) % P; }
    void neg(Element &r, const Element &a) { r.v = (P - a.v) % P; }
    void mul(Element &r, const Element &a, const Element &b) { r.v = a.v * b.v % P; }
    void square(Element &r, const Element &a) { r.v = a.v * a.v % P; }
    void inv(Element &r, const Element &a) { uint64_t e = P - 2, b = a.v, x = 1; for (; e; e >>= 1) { if (e & 1) x = x * b % P; b = b * b % P; } r.v = x; }
    void div(Element &r, const Element &a, const Element &b) { Element t; inv(t, b); mul(r, a, t); }
    void exp(Element &r, const Element &b, uint8_t *s, unsigned n) { uint64_t x = 1, y = b.v; for (unsigned i = 0; i < n * 8; i++) { if (s[i >> 3] >> (i & 7) & 1) x = x * y % P; y = y * y % P; } r.v = x; }
    int eq(const Element &a, const Element &b) { return a.v == b.v; }
    int isZero(const Element &a) { return a.v == 0; }
    int isOne(const Element &a) { return a.v == 1; }
    void set(Element &r, long v) { r.v = ((v % (long)P) + P) % P; }
    void fromString(Element &r, const std::string &s, uint32_t radix = 10) { mpz_t a; mpz_init_set_str(a, s.c_str(), radix); r.v = mpz_fdiv_ui(a, P); mpz_clear(a); }
    std::string toString(const Element &a, uint32_t radix = 10) { return std::to_string(a.v); }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.v); }
    void fromMpz(Element &r, const mpz_t a) { r.v = mpz_fdiv_ui(a, P); }
};
#endif
