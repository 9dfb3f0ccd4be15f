#include <cstdint>
#include <cstring>
#include <string>
#include <stdexcept>
#include <new>
#include "absgroup.hpp"
#include "absfield.hpp"
#include "naf.hpp"
#include "f12field.hpp"
#include "misc.hpp"
#include "curve.hpp"
typedef AbsGroup G; typedef G::Point J; typedef G::PointAffine A;
typedef F12Field<AbsF6> F12;
extern "C" {
void d_naf(uint8_t *r, uint8_t *s, unsigned n) { buildNaf(r, s, n); }
void d_mul_J(G &g, J &r, J &b, uint8_t *s, unsigned n) { nafMulByScalar<G, J, J>(g, r, b, s, n); }
void d_mul_A(G &g, J &r, A &b, uint8_t *s, unsigned n) { nafMulByScalar<G, A, J>(g, r, b, s, n); }
void d_f12exp(F12 &f, F12::Element &r, F12::Element &a, uint8_t *s, unsigned n) { f.exp(r, a, s, n); }
typedef Curve<AbsField> C;
void d_mul_CJ(C &g, C::Point &r, C::Point &b, uint8_t *s, unsigned n) { g.mulByScalar(r, b, s, n); }
void d_mul_CA(C &g, C::Point &r, C::PointAffine &b, uint8_t *s, unsigned n) { g.mulByScalar(r, b, s, n); }
}
