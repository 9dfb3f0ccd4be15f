// Declaration-only abelian group standing for the curve parameter of the scalar-multiplication templates.
#ifndef ABSGROUP_HPP
#define ABSGROUP_HPP
#include <cstdint>
#include <string>
struct AbsGroup {
    struct Point { uint64_t v[16]; };
    struct PointAffine { uint64_t v[8]; };
    Point &zero(); PointAffine &zeroAffine();
#define G3(op, R) \
    void op(R &r, const Point &a, const Point &b); void op(R &r, const Point &a, const PointAffine &b); \
    void op(R &r, const PointAffine &a, const Point &b); void op(R &r, const PointAffine &a, const PointAffine &b);
#define G2(op) void op(Point &r, const Point &a); void op(Point &r, const PointAffine &a); \
    void op(PointAffine &r, const Point &a); void op(PointAffine &r, const PointAffine &a);
    G3(add, Point) G3(add, PointAffine) G3(sub, Point) G3(sub, PointAffine) G2(dbl) G2(neg) G2(copy)
    bool isZero(const Point &a); bool isZero(const PointAffine &a);
    bool eq(const Point &a, const Point &b); bool eq(const Point &a, const PointAffine &b); bool eq(const PointAffine &a, const PointAffine &b);
    void mulByScalar(Point &r, const Point &base, uint8_t *scalar, unsigned int scalarSize);
    void mulByScalar(Point &r, const PointAffine &base, uint8_t *scalar, unsigned int scalarSize);
#undef G2
#undef G3
};
#endif
