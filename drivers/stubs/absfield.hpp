// Declaration-only rings: the analyses give each operation its ring meaning; nothing here is executable.
#ifndef ABSFIELD_HPP
#define ABSFIELD_HPP
#include <string>
#include <cstdint>
#include <gmp.h>
#define ABS_RING_OPS \
    const Element &zero_() const; Element &zero(); Element &one(); Element &negOne(); \
    Element set(int value); void set(Element &r, int value); void fromUI(Element &r, unsigned long v); \
    void fromString(Element &r, const std::string &s); void fromString(Element &r, const std::string &s, uint32_t radix); \
    std::string toString(const Element &a, uint32_t radix = 10); \
    void copy(Element &r, const Element &a); void swap(Element &a, Element &b); \
    void add(Element &r, const Element &a, const Element &b); void sub(Element &r, const Element &a, const Element &b); \
    void mul(Element &r, const Element &a, const Element &b); void neg(Element &r, const Element &a); \
    Element add(const Element &a, const Element &b); Element sub(const Element &a, const Element &b); \
    Element mul(const Element &a, const Element &b); Element neg(const Element &a); Element square(const Element &a); \
    void square(Element &r, const Element &a); void dbl(Element &r, const Element &a); \
    void inv(Element &r, const Element &a); void div(Element &r, const Element &a, const Element &b); \
    int eq(const Element &a, const Element &b); int isZero(const Element &a); int isOne(const Element &a); \
    void mul1(Element &r, const Element &a, uint64_t b); \
    void exp(Element &r, const Element &base, uint8_t* scalar, unsigned int scalarSize);
struct AbsField {
    struct Element { uint64_t v[4]; };
    AbsField();
    AbsField &operator=(const AbsField &);
    AbsField(const AbsField &);
    ABS_RING_OPS
    static AbsField field;
};
struct AbsF2 {
    struct Element { uint64_t v[8]; };
    typedef AbsField Base; typedef AbsField::Element BaseElement;
    AbsField F;
    AbsF2(std::string s);
    AbsF2 &operator=(const AbsF2 &);
    ABS_RING_OPS
    void conjugate(Element &r, const Element &a);
    void mulXi(Element &r, const Element &a);
    void mulScalar(Element &r, const Element &a, const BaseElement &b);
};
struct AbsF6 {
    struct Element { uint64_t v[24]; };
    typedef AbsF2 Base; typedef AbsF2::Element BaseElement;
    AbsF2 F;
    AbsF6();
    AbsF6 &operator=(const AbsF6 &);
    ABS_RING_OPS
    void mulTau(Element &r, const Element &a);
    void mulScalar(Element &r, const Element &a, const BaseElement &b);
    void mulGFP(Element &r, const Element &a, const AbsField::Element &b);
    void Frobenius(Element &r, const Element &a);
    void FrobeniusP2(Element &r, const Element &a);
};
#endif
