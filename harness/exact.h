// The exact sign of the triple product of vectors with double components.
#pragma once
#include "gen.h"
#include <boost/multiprecision/cpp_int.hpp>
namespace vh {
namespace exact {
using boost::multiprecision::cpp_int;
// d = m * 2^e exactly.
struct Dy { cpp_int m; int e; };
inline Dy dyadic(double d) {
    if (d == 0) return {0, 0};
    int e; double f = std::frexp(d, &e);
    std::int64_t m = static_cast<std::int64_t>(std::ldexp(f, 53));
    return {m, e - 53};
}
inline Dy mul(Dy a, Dy b) { return {a.m * b.m, a.e + b.e}; }
inline Dy add(Dy a, Dy b) {
    if (a.m == 0) return b;
    if (b.m == 0) return a;
    int e = std::min(a.e, b.e);
    return {(a.m << (a.e - e)) + (b.m << (b.e - e)), e};
}
inline Dy neg(Dy a) { return {-a.m, a.e}; }
}  // namespace exact
inline int exactSign(double const * a, double const * b, double const * c) {
    using namespace exact;
    Dy A[3], B[3], C[3];
    for (int i = 0; i < 3; ++i) { A[i] = dyadic(a[i]); B[i] = dyadic(b[i]); C[i] = dyadic(c[i]); }
    Dy s{0, 0};
    for (int i = 0; i < 3; ++i) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        s = add(s, mul(A[i], add(mul(B[j], C[k]), neg(mul(B[k], C[j])))));
    }
    return s.m > 0 ? 1 : (s.m < 0 ? -1 : 0);
}
inline int exactSign(Vector3d const & a, Vector3d const & b, Vector3d const & c) {
    double x[3] = {a.x(), a.y(), a.z()}, y[3] = {b.x(), b.y(), b.z()}, z[3] = {c.x(), c.y(), c.z()};
    return exactSign(x, y, z);
}
// The same for (nearly) unit vectors, trying extended precision first.
inline int fastSign(UnitVector3d const & a, UnitVector3d const & b, UnitVector3d const & c) {
    LD d = V3(a).dot(V3(b).cross(V3(c)));
    if (d > 1e-17L) return 1;
    if (d < -1e-17L) return -1;
    return exactSign(a, b, c);
}
// True if a and b are exactly parallel or antiparallel.
inline bool exactParallel(UnitVector3d const & a, UnitVector3d const & b) {
    __float128 x = a.x(), y = a.y(), z = a.z(), u = b.x(), v = b.y(), w = b.z();
    return x * v == y * u && y * w == z * v && z * u == x * w;
}
}  // namespace vh
