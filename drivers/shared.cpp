#include <cstdint>
#include <cstring>
#include <string>
#include <stdexcept>
#include <cstddef>
#include <vector>
#include <gmp.h>
#include "misc.hpp"
#include "alt_bn128.hpp"
#include "fft.hpp"
template class F2Field<RawFq>;
template class F6Field<F2Field<RawFq>>;
template class F12Field<F6Field<F2Field<RawFq>>>;
template class Curve<RawFq>;
template class Curve<F2Field<RawFq>>;
template class FFT<RawFr>;
template class MSM<Curve<RawFq>, RawFq>;
template class ParallelMultiexp<Curve<RawFq>>;
typedef Curve<RawFq> C1; typedef Curve<F2Field<RawFq>> C2;
void use(C1 &c, C1::Point &r, C1::PointAffine *a, C1::Point &p, C2 &d, C2::Point &s, C2::PointAffine *b, C2::Point &q, uint8_t *k) {
    c.mulByScalar(r, p, k, 32); c.mulByScalar(r, a[0], k, 32); d.mulByScalar(s, q, k, 32); d.mulByScalar(s, b[0], k, 32);
    c.multiMulByScalar(r, a, k, 32, 100, 0); d.multiMulByScalar(s, b, k, 32, 100, 0);
}
