#include <cstdint>
#include <cstring>
#include <string>
#include <stdexcept>
#include <new>
#include "absgroup.hpp"
#include "absfield.hpp"
#include "multiexp.hpp"
#include "misc.cpp"
#include "msm.hpp"
#include "curve.hpp"
typedef AbsGroup G; typedef G::Point J; typedef G::PointAffine A;
struct NoField {};
extern "C" {
void d_multiexp(G &g, J &r, A *b, uint8_t *s, uint64_t ss, uint64_t n, uint64_t t) { ParallelMultiexp<G> p(g); p.multiexp(r, b, s, ss, n, t); }
void d_multiexp_x(G &g, J &r, A *b, uint8_t *s, uint64_t ss, uint64_t n, uint64_t nx, uint64_t *x, uint64_t t) { ParallelMultiexp<G> p(g); p.multiexp(r, b, s, ss, n, nx, x, t); }
void d_msm(G &g, J &r, A *b, uint8_t *s, uint64_t ss, uint64_t n) { MSM<G, NoField> p(g); p.run(r, b, s, ss, n); }
typedef Curve<AbsField> C;
void c_multiexp(C &g, C::Point &r, C::PointAffine *b, uint8_t *s, unsigned ss, unsigned n, unsigned t) { g.multiMulByScalar(r, b, s, ss, n, t); }
void c_multiexp_x(C &g, C::Point &r, C::PointAffine *b, uint8_t *s, unsigned ss, unsigned n, unsigned nx, uint64_t *x, unsigned t) { g.multiMulByScalar(r, b, s, ss, n, nx, x, t); }
void c_msm(C &g, C::Point &r, C::PointAffine *b, uint8_t *s, unsigned ss, unsigned n) { g.multiMulByScalarMSM(r, b, s, ss, n); }
}
