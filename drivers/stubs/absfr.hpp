// Declaration-only prime field with the scalar-field interface the FFT uses.
#ifndef ABSFR_HPP
#define ABSFR_HPP
#include <string>
#include <cstdint>
#include <gmp.h>
struct AbsFr {
    struct Element { uint64_t v[4]; };
    AbsFr(); AbsFr(const AbsFr &); AbsFr &operator=(const AbsFr &);
    const Element &zero(); const Element &one(); const Element &negOne();
    void copy(Element &r, const Element &a); void swap(Element &a, Element &b);
    void add(Element &r, const Element &a, const Element &b); void sub(Element &r, const Element &a, const Element &b);
    void mul(Element &r, const Element &a, const Element &b); void neg(Element &r, const Element &a);
    void square(Element &r, const Element &a); void inv(Element &r, const Element &a); void div(Element &r, const Element &a, const Element &b);
    int isZero(const Element &a); int eq(const Element &a, const Element &b); int isOne(const Element &a);
    void exp(Element &r, const Element &base, uint8_t *scalar, unsigned int scalarSize);
    void fromUI(Element &r, unsigned long v); void fromMpz(Element &r, const mpz_t v); void toMpz(mpz_t r, const Element &a);
    void fromString(Element &r, const std::string &s, uint32_t radix = 10);
    std::string toString(const Element &a, uint32_t radix = 10);
    static AbsFr field;
};
#endif
