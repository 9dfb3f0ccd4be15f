#include <cstdint>
#include <cstring>
#include <string>
#include <stdexcept>
#include <new>
#include "absfield.hpp"
#include "misc.hpp"
#include "curve.hpp"
typedef Curve<AbsField> C; typedef C::Point J; typedef C::PointAffine A; typedef AbsField::Element E;
extern "C" {
unsigned long d_size() { return sizeof(C); }
void d_ctor(void *m, AbsField &f, E &a, E &b, E &x, E &y) { new (m) C(f, a, b, x, y); }
E *d_a(C &c) { return &c.a(); }  E *d_b(C &c) { return &c.b(); }
J *d_one(C &c) { return &c.one(); }  A *d_oneA(C &c) { return &c.oneAffine(); }
J *d_zero(C &c) { return &c.zero(); } A *d_zeroA(C &c) { return &c.zeroAffine(); }
#define BIN(op) \
void d_##op##_JJJ(C &c, J &r, J &a, J &b) { c.op(r, a, b); } void d_##op##_JJA(C &c, J &r, J &a, A &b) { c.op(r, a, b); } \
void d_##op##_JAA(C &c, J &r, A &a, A &b) { c.op(r, a, b); } void d_##op##_JAJ(C &c, J &r, A &a, J &b) { c.op(r, a, b); } \
void d_##op##_AJJ(C &c, A &r, J &a, J &b) { c.op(r, a, b); } void d_##op##_AJA(C &c, A &r, J &a, A &b) { c.op(r, a, b); } \
void d_##op##_AAA(C &c, A &r, A &a, A &b) { c.op(r, a, b); } void d_##op##_AAJ(C &c, A &r, A &a, J &b) { c.op(r, a, b); }
BIN(add) BIN(sub)
#define UN(op) \
void d_##op##_JJ(C &c, J &r, J &a) { c.op(r, a); } void d_##op##_JA(C &c, J &r, A &a) { c.op(r, a); } \
void d_##op##_AJ(C &c, A &r, J &a) { c.op(r, a); } void d_##op##_AA(C &c, A &r, A &a) { c.op(r, a); }
UN(dbl) UN(neg) UN(copy)
int d_eq_JJ(C &c, J &a, J &b) { return c.eq(a, b); } int d_eq_JA(C &c, J &a, A &b) { return c.eq(a, b); }
int d_eq_AJ(C &c, A &a, J &b) { return c.eq(a, b); } int d_eq_AA(C &c, A &a, A &b) { return c.eq(a, b); }
int d_isZero_J(C &c, J &a) { return c.isZero(a); } int d_isZero_A(C &c, A &a) { return c.isZero(a); }
}
