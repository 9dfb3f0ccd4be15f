#include <cstdint>
#include <cstring>
#include <string>
#include <stdexcept>
#include <cstddef>
#include "misc.hpp"
#include "alt_bn128.hpp"
using namespace AltBn128;
#define L(n, t, f) extern "C" const unsigned long L_##n = offsetof(t, f);
typedef Curve<RawFq> C1; typedef Curve<F2Field<RawFq>> C2; typedef F2Field<RawFq> T2; typedef F6Field<T2> T6; typedef F12Field<T6> T12;
L(g1, Engine, g1) L(g2, Engine, g2) L(f2, Engine, f2) L(f6, Engine, f6) L(f12, Engine, f12)
L(c1_fa, C1, fa) L(c1_fb, C1, fb) L(c1_one, C1, fone) L(c2_fa, C2, fa) L(c2_fb, C2, fb) L(c2_one, C2, fone)
L(f2_nr, T2, nr) L(f6_F, T6, F) L(f12_F, T12, F)
extern "C" const unsigned long *use[] = {&L_g1};
