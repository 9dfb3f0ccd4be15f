#include <cctype>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
#include <new>
template class std::basic_string<char>;
#include "absfield.hpp"
#include "misc.hpp"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
#include "curve.hpp"
#include "splitparstr.cpp"
#if WHAT == 2
typedef F2Field<AbsField> T;
#elif WHAT == 6
typedef F6Field<AbsF2> T;
#elif WHAT == 12
typedef F12Field<AbsF6> T;
#elif WHAT == 112
typedef F12Field<F6Field<F2Field<AbsField>>> T;
#elif WHAT == 1
typedef Curve<AbsField> T; typedef AbsField G;
#elif WHAT == 3
typedef Curve<F2Field<AbsField>> T; typedef F2Field<AbsField> G;
#endif
extern "C" {
unsigned long d_size() { return sizeof(T); }
void d_str(std::string *s, const char *p, unsigned long n) { new (s) std::string(p, n); }
void d_unstr(std::string *s) { using std::string; s->~string(); }
#if WHAT == 1 || WHAT == 3
typedef T::Point J; typedef G::Element E;
void d_ctor(void *m, G &f, E &a, E &b, E &x, E &y) { new (m) T(f, a, b, x, y); }
void d_ctor_s(void *m, G &f, std::string &a, std::string &b, std::string &x, std::string &y) { new (m) T(f, a, b, x, y); }
unsigned long d_gsize() { return sizeof(G); }
void d_to(T &t, std::string *s, J &e, uint32_t radix) { new (s) std::string(t.toString(e, radix)); }
void d_to_default(T &t, std::string *s, J &e) { new (s) std::string(t.toString(e)); }
E *d_a(T &c) { return &c.a(); }  E *d_b(T &c) { return &c.b(); }
J *d_one(T &c) { return &c.one(); }  T::PointAffine *d_oneA(T &c) { return &c.oneAffine(); }
J *d_zero(T &c) { return &c.zero(); } T::PointAffine *d_zeroA(T &c) { return &c.zeroAffine(); }
#else
typedef T::Element E;
#if WHAT == 2
void d_ctor(void *m, AbsField::Element &nr) { new (m) T(nr); }
void d_ctor_s(void *m, std::string &nr) { new (m) T(nr); }
E *d_zero(T &t) { return &t.zero(); }
E *d_one(T &t) { return &t.one(); }
E *d_negOne(T &t) { return &t.negOne(); }
#else
void d_ctor(void *m) { new (m) T(); }
#endif
void d_mul(T &t, E &r, E &a, E &b) { t.mul(r, a, b); }
void d_from(T &t, E &r, std::string &s) { t.fromString(r, s); }
void d_to(T &t, std::string *s, E &e, uint32_t radix) { new (s) std::string(t.toString(e, radix)); }
void d_to_default(T &t, std::string *s, E &e) { new (s) std::string(t.toString(e)); }
void d_round(T &t, E &r, E &e) { t.fromString(r, t.toString(e)); }
#endif
#if WHAT == 3
void d_fctor(void *m, AbsField::Element &nr) { new (m) G(nr); }
#endif
}
