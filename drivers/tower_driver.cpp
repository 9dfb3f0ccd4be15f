#include <cstdint>
#include <cstring>
#include <string>
#include <stdexcept>
#include <new>
#include "absfield.hpp"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
#if TOWER == 2
typedef F2Field<AbsField> T; typedef AbsField::Element B;
#elif TOWER == 6
typedef F6Field<AbsF2> T; typedef AbsF2::Element B;
#elif TOWER == 12
typedef F12Field<AbsF6> T; typedef AbsF6::Element B;
#elif TOWER == 112
typedef F12Field<F6Field<F2Field<AbsField>>> T; typedef F6Field<F2Field<AbsField>>::Element B;
#endif
typedef T::Element E;
extern "C" {
unsigned long d_size() { return sizeof(T); }
unsigned long d_esize() { return sizeof(E); }
#if TOWER == 2
void d_ctor(void *m, AbsField::Element &nr) { new (m) T(nr); }
void d_conjugate(T &t, E &r, E &a) { t.conjugate(r, a); }
void d_mulXi(T &t, E &r, E &a) { t.mulXi(r, a); }
void d_mulScalar(T &t, E &r, E &a, B &b) { t.mulScalar(r, a, b); }
void d_dbl(T &t, E &r, E &a) { t.dbl(r, a); }
#else
void d_ctor(void *m) { new (m) T(); }
#endif
#if TOWER == 6
void d_mulTau(T &t, E &r, E &a) { t.mulTau(r, a); }
void d_mulGFP(T &t, E &r, E &a, AbsField::Element &b) { t.mulGFP(r, a, b); }
void d_mulScalar(T &t, E &r, E &a, B &b) { t.mulScalar(r, a, b); }
void d_dbl(T &t, E &r, E &a) { t.dbl(r, a); }
#endif
#if TOWER == 12
void d_conjugate(T &t, E &r, E &a) { t.conjugate(r, a); }
void d_mulScalar(T &t, E &r, E &a, B &b) { t.mulScalar(r, a, b); }
#endif
#if TOWER == 112
void d_Frobenius(T &t, E &r, E &a) { t.Frobenius(r, a); }
void d_FrobeniusP2(T &t, E &r, E &a) { t.FrobeniusP2(r, a); }
void d_Frobenius6(T &t, B &r, B &a) { t.F.Frobenius(r, a); }
void d_FrobeniusP26(T &t, B &r, B &a) { t.F.FrobeniusP2(r, a); }
#endif
void d_add(T &t, E &r, E &a, E &b) { t.add(r, a, b); }
void d_sub(T &t, E &r, E &a, E &b) { t.sub(r, a, b); }
void d_mul(T &t, E &r, E &a, E &b) { t.mul(r, a, b); }
void d_div(T &t, E &r, E &a, E &b) { t.div(r, a, b); }
void d_neg(T &t, E &r, E &a) { t.neg(r, a); }
void d_square(T &t, E &r, E &a) { t.square(r, a); }
void d_inv(T &t, E &r, E &a) { t.inv(r, a); }
void d_copy(T &t, E &r, E &a) { t.copy(r, a); }
int d_isZero(T &t, E &a) { return t.isZero(a); }
int d_isOne(T &t, E &a) { return t.isOne(a); }
int d_eq(T &t, E &a, E &b) { return t.eq(a, b); }
E *d_zero(T &t) { return &t.zero(); }
E *d_one(T &t) { return &t.one(); }
E *d_negOne(T &t) { return &t.negOne(); }
}
