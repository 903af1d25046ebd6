// C20: angle, vector, matrix and coordinate arithmetic against long double evaluation.
#include "gen.h"
using namespace vh;

namespace {
constexpr LD EPS = 1.1102230246251565404e-16L;
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();

double component(Rng & r) {
    switch (r.range(0, 9)) {
        case 0: return r.chance(.5) ? 0.0 : -0.0;
        case 1: return (r.chance(.5) ? 1 : -1) * r.pick({1.0, 2.0, 0.5, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e154, 1e-154, 1.5e-323});
        case 2: return (r.chance(.5) ? 1 : -1) * std::exp(r.uni(-744, 709));
        default: return (r.chance(.5) ? 1 : -1) * r.uni();
    }
}

Vector3d anyVector(Rng & r) {
    double v[3];
    int mode = r.range(0, 5);
    double scale = mode == 0 ? 1.0 : std::exp(r.uni(-700, 700));
    for (double & x : v) {
        x = component(r);
        if (mode == 1) x = r.uni(-1, 1) * scale;
        if (mode == 2) x = r.uni(-1, 1) * r.pick({1.0, 1e-8, 1e-17, 1e-160, 1e-300}) * std::min(scale, 1e8);
        if (mode == 3) x = r.uni(-1, 1);
    }
    if (mode == 4) { int k = static_cast<int>(r.below(3)); v[(k + 1) % 3] = v[k]; if (r.chance(.5)) v[(k + 2) % 3] = -v[k]; }
    return Vector3d(v[0], v[1], v[2]);
}

// A vector whose components' products neither overflow nor underflow.
Vector3d tameVector(Rng & r) {
    double s = r.chance(.5) ? 1.0 : std::exp(r.uni(-100, 100));
    if (r.chance(.3)) return Vector3d(anyUnit(r)) * s;
    return Vector3d(r.uni(-1, 1) * s, r.uni(-1, 1) * s, r.chance(.2) ? 0 : r.uni(-1, 1) * s * r.pick({1.0, 1e-10, 1e-17}));
}

// A few denormals are allowed for underflow.
bool close(LD a, LD b, LD tol) { return fabsl(a - b) <= tol + 3e-323L; }
}  // namespace

SECTION(normalization, 400000) {
    Rng & r = c.rng;
    Vector3d v = anyVector(r), u = v;
    auto msg = [&] { return toStr(v) + " normalized is " + toStr(u); };
    c.eval(hashBytes(v.getData(), 24));
    if (v.x() == 0 && v.y() == 0 && v.z() == 0) {
        try { u.normalize(); c.fail("zero-normalized", msg()); } catch (std::runtime_error const &) { c.count("zero vectors rejected"); }
        try { UnitVector3d w(v); c.fail("zero-unit-vector", toStr(w)); } catch (std::runtime_error const &) {}
        try { UnitVector3d w(v.x(), v.y(), v.z()); c.fail("zero-unit-vector", toStr(w)); } catch (std::runtime_error const &) {}
        c.check(v.isZero(), "isZero", msg);
        return;
    }
    double n = u.normalize();
    LD x = v.x(), y = v.y(), z = v.z(), N = sqrtl(x * x + y * y + z * z);
    LD e[3] = {x / N, y / N, z / N};
    for (int k = 0; k < 3; ++k) if (!close(u(k), e[k], 6 * EPS * fabsl(e[k]) + 1e-323L)) { c.fail("normalize-component", msg()); break; }
    c.check(u.isNormalized(), "isNormalized", msg);
    if (N < 1.79e308L) c.check(close(n, N, 6 * EPS * N + 1e-323L), "norm-returned", [&] { return msg() + " norm " + str(n); });
    else c.check(std::isinf(n) || n > 1.79e308, "norm-overflow", [&] { return msg() + " norm " + str(n); });
    c.check(UnitVector3d(v) == u && UnitVector3d(v.x(), v.y(), v.z()) == u, "unit-vector-constructors", msg);
    for (int k = 0; k < 3; ++k) c.check(std::signbit(u(k)) == std::signbit(v(k)), "normalize-sign", msg);
    c.check(!v.isZero(), "isZero", msg);
    c.count(N > 1e300L || N < 1e-300L ? "extreme norms" : "ordinary norms");
    c.sample(msg);
}

SECTION(vectors, 300000) {
    Rng & r = c.rng;
    Vector3d a = tameVector(r), b = tameVector(r);
    double s = r.uni(-4, 4);
    if (r.chance(.2)) b = a * (1 + r.uni(-1, 1) * 1e-12);
    double key[7] = {a.x(), a.y(), a.z(), b.x(), b.y(), b.z(), s};
    c.eval(hashBytes(key, sizeof key));
    auto msg = [&] { return toStr(a) + " and " + toStr(b) + ", " + str(s); };
    V3 A(a), B(b);
    LD terms = fabsl(A.x * B.x) + fabsl(A.y * B.y) + fabsl(A.z * B.z);
    c.check(close(a.dot(b), A.dot(B), 4 * EPS * terms), "dot", msg);
    c.check(close(a.getSquaredNorm(), A.dot(A), 4 * EPS * A.dot(A)), "squared-norm", msg);
    c.check(close(a.getNorm(), A.norm(), 4 * EPS * A.norm()), "norm", msg);
    Vector3d x = a.cross(b);
    V3 X = A.cross(B);
    c.check(close(x.x(), X.x, 3 * EPS * (fabsl(A.y * B.z) + fabsl(A.z * B.y))) && close(x.y(), X.y, 3 * EPS * (fabsl(A.z * B.x) + fabsl(A.x * B.z))) &&
            close(x.z(), X.z, 3 * EPS * (fabsl(A.x * B.y) + fabsl(A.y * B.x))), "cross", msg);
    auto is = [&](Vector3d const & v, double p, double q, double w, char const * k) { c.check(v.x() == p && v.y() == q && v.z() == w && v(0) == p && v(1) == q && v(2) == w && v.getData()[0] == p && v.getData()[1] == q && v.getData()[2] == w, k, msg); };
    is(a + b, a.x() + b.x(), a.y() + b.y(), a.z() + b.z(), "plus");
    is(a - b, a.x() - b.x(), a.y() - b.y(), a.z() - b.z(), "minus");
    is(a * s, a.x() * s, a.y() * s, a.z() * s, "times");
    is(s * a, a.x() * s, a.y() * s, a.z() * s, "times-left");
    is(-a, -a.x(), -a.y(), -a.z(), "negation");
    is(a.cwiseProduct(b), a.x() * b.x(), a.y() * b.y(), a.z() * b.z(), "cwise-product");
    if (s != 0) { Vector3d q = a / s; c.check(close(q.x(), A.x / s, 2 * EPS * fabsl(A.x / s)) && close(q.y(), A.y / s, 2 * EPS * fabsl(A.y / s)) && close(q.z(), A.z / s, 2 * EPS * fabsl(A.z / s)), "quotient", msg); }
    Vector3d t = a; t += b; c.check(t == a + b, "plus-assign", msg);
    t = a; t -= b; c.check(t == a - b, "minus-assign", msg);
    t = a; t *= s; c.check(t == a * s, "times-assign", msg);
    if (s != 0) { t = a; t /= s; c.check(t == a / s, "divide-assign", msg); }
    bool eq = a.x() == b.x() && a.y() == b.y() && a.z() == b.z();
    c.check((a == b) == eq && (a != b) == !eq && a == a && !(a != a), "equality", msg);
    Vector3d b1(a.x(), a.y(), std::nextafter(a.z(), 1e300)), b2(std::nextafter(a.x(), 1e300), a.y(), a.z()), b3(a.x(), std::nextafter(a.y(), 1e300), a.z());
    c.check(a != b1 && a != b2 && a != b3 && !(a == b1) && !(a == b2) && !(a == b3), "inequality", msg);

    // rotation
    UnitVector3d k = anyUnit(r);
    double ang = r.chance(.3) ? r.range(-8, 8) * PI / 4 : r.uni(-10, 10);
    if (r.chance(.1)) ang = r.uni(-1, 1) * r.pick({1e-8, 1e-16, 1e3});
    Vector3d ro = a.rotatedAround(k, Angle(ang));
    V3 R = rotateAround(A, V3(k), ang);
    c.check((V3(ro) - R).norm() <= 3e-15L * A.norm(), "rotation", [&] { return msg() + " around " + describe(k) + " by " + str(ang) + " gave " + toStr(ro); });
    UnitVector3d u = anyUnit(r), ur = u.rotatedAround(k, Angle(ang));
    c.check((V3(ur) - rotateAround(V3(u), V3(k), ang)).norm() <= 3e-15L && Vector3d(ur).isNormalized(), "unit-rotation", [&] { return describe(u) + " around " + describe(k) + " by " + str(ang); });

    // unit vector operators forward to vectors
    Vector3d uv(u);
    c.check(u.dot(a) == uv.dot(a) && u.cross(a) == uv.cross(a) && u * s == uv * s && u + a == uv + a && u - a == uv - a && u.cwiseProduct(a) == uv.cwiseProduct(a) && Vector3d(-u) == -uv &&
            u.x() == uv.x() && u(1) == uv.y() && u.getData()[2] == uv.z() && u == uv && !(u != uv), "unit-vector-operators", [&] { return describe(u) + " and " + msg(); });

    // orthogonal vectors
    UnitVector3d o = UnitVector3d::orthogonalTo(a);
    c.check(Vector3d(o).isNormalized() && fabsl(V3(o).dot(A)) <= 4 * EPS * A.norm(), "orthogonal", [&] { return msg() + " gave " + describe(o); });
    UnitVector3d p = anyUnit(r), q = r.chance(.4) ? nearUnit(r, p) : anyUnit(r);
    V3 P(p), Q(q);
    UnitVector3d m = UnitVector3d::orthogonalTo(p, q);
    LD sn = P.cross(Q).norm();
    // Vectors that differ in norm more than in direction cancel in the cross product of their sum and difference.
    LD otol = 2e-15L + (sn > 0 ? 2 * EPS * (P - Q).norm() * (P + Q).norm() / sn : 0);
    auto om = [&] { return describe(p) + " and " + describe(q) + " gave " + describe(m); };
    c.check(Vector3d(m).isNormalized() && fabsl(V3(m).dot(P)) <= otol, "orthogonal-to-first", om);
    c.check(fabsl(V3(m).dot(Q)) <= otol, "orthogonal-to-second", om);
    if (sn > 1e-15L) c.check(V3(m).dot(P.cross(Q)) > 0.9L * sn, "orthogonal-orientation", om);
    Vector3d rc = p.robustCross(q);
    if (sn > 1e-15L) c.check((V3(rc) - P.cross(Q) * 2).norm() <= 2e-15L, "robust-cross", om);
    double lon = r.uni(0, 2 * PI);
    UnitVector3d me = UnitVector3d::orthogonalTo(NormalizedAngle(lon));
    c.check((V3(me) - V3(-sinl(lon), cosl(lon), 0)).norm() <= 4 * EPS, "orthogonal-to-meridian", [&] { return str(lon) + " gave " + describe(me); });
    // north
    Vector3d nv = r.chance(.5) ? Vector3d(p) : Vector3d(p) * r.logUni(1e-20, 1e20);
    if (r.chance(.05)) nv = Vector3d(0, 0, r.pick({1.0, -1.0, 0.5, -3.0}));
    UnitVector3d no = UnitVector3d::northFrom(nv);
    auto nm = [&] { return toStr(nv) + " gave " + describe(no); };
    V3 NV(nv);
    c.check(Vector3d(no).isNormalized(), "north-norm", nm);
    LD h = sqrtl(NV.x * NV.x + NV.y * NV.y);
    c.check(fabsl(V3(no).dot(NV)) <= 4e-16L * NV.norm(), "north-orthogonal", nm);
    if (nv.x() == 0 && nv.y() == 0) c.check(no.x() == (nv.z() > 0 ? -1 : 1) && no.y() == 0 && no.z() == 0, "north-at-pole", nm);
    else if (h > 1e-150L * NV.norm()) c.check(fabsl(V3(no).dot(V3(-NV.y / h, NV.x / h, 0))) < 4e-16L && no.z() >= 0 && (nv.z() == 0 || (no.x() * nv.x() + no.y() * nv.y()) * nv.z() <= 0), "north-direction", nm);
    c.count("vector operations", 25);
    c.sample(msg);
}

SECTION(matrices, 150000) {
    Rng & r = c.rng;
    auto entry = [&] { return r.chance(.1) ? 0.0 : r.chance(.2) ? static_cast<double>(r.range(-3, 3)) : r.uni(-1, 1) * r.pick({1.0, 1.0, 1e-5, 1e5}); };
    double a[3][3], b[3][3];
    for (auto & row : a) for (double & x : row) x = entry();
    for (auto & row : b) for (double & x : row) x = entry();
    if (r.chance(.2)) { double t = r.uni(-2, 2); for (int j = 0; j < 3; ++j) a[2][j] = a[0][j] * t + r.uni(-1, 1) * r.pick({1.0, 1e-6, 1e-12}); }
    Matrix3d A(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]);
    Matrix3d B(b[0][0], b[0][1], b[0][2], b[1][0], b[1][1], b[1][2], b[2][0], b[2][1], b[2][2]);
    Vector3d v(entry(), entry(), entry());
    c.eval(hashBytes(a, sizeof a) ^ mix(hashBytes(b, sizeof b)));
    auto msg = [&] { return toStr(A) + " and " + toStr(B); };
    Matrix3d S = A + B, D = A - B, C = A.cwiseProduct(B), T = A.transpose(), M = A * B;
    Vector3d av = A * v;
    LD inner = 0, innerAbs = 0, sq = 0;
    bool eq = true;
    for (int i = 0; i < 3; ++i) {
        LD e = 0, ea = 0;
        for (int j = 0; j < 3; ++j) {
            c.check(A(i, j) == a[i][j] && A.getRow(i)(j) == a[i][j] && A.getColumn(j)(i) == a[i][j], "matrix-access", msg);
            c.check(S(i, j) == a[i][j] + b[i][j] && D(i, j) == a[i][j] - b[i][j] && C(i, j) == a[i][j] * b[i][j] && T(j, i) == a[i][j], "matrix-elementwise", msg);
            LD m = 0, ma = 0;
            for (int k = 0; k < 3; ++k) { LD t = static_cast<LD>(a[i][k]) * b[k][j]; m += t; ma += fabsl(t); }
            c.check(close(M(i, j), m, 4 * EPS * ma), "matrix-product", msg);
            LD t = static_cast<LD>(a[i][j]) * v(j);
            e += t; ea += fabsl(t);
            t = static_cast<LD>(a[i][j]) * b[i][j];
            inner += t; innerAbs += fabsl(t);
            sq += static_cast<LD>(a[i][j]) * a[i][j];
            eq = eq && a[i][j] == b[i][j];
        }
        c.check(close(av(i), e, 4 * EPS * ea), "matrix-vector", msg);
    }
    c.check(close(A.inner(B), inner, 10 * EPS * innerAbs), "matrix-inner", msg);
    c.check(close(A.getSquaredNorm(), sq, 10 * EPS * sq) && close(A.getNorm(), sqrtl(sq), 10 * EPS * sqrtl(sq)), "matrix-norm", msg);
    c.check((A == B) == eq && (A != B) == !eq && A == A && !(A != A), "matrix-equality", msg);
    {
        int i = r.range(0, 2), j = r.range(0, 2);
        double q[3][3]; std::memcpy(q, a, sizeof q); q[i][j] = std::nextafter(q[i][j], 1e9);
        Matrix3d Q(q[0][0], q[0][1], q[0][2], q[1][0], q[1][1], q[1][2], q[2][0], q[2][1], q[2][2]);
        c.check(A != Q && !(A == Q), "matrix-inequality", msg);
    }
    Matrix3d diag(v), scaled(2.5), zero;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.check(diag(i, j) == (i == j ? v(i) : 0) && scaled(i, j) == (i == j ? 2.5 : 0) && zero(i, j) == 0, "matrix-constructors", msg);
    // inverse
    auto minor = [&](int i, int j, LD & abssum) {
        int p = (i + 1) % 3, q = (i + 2) % 3, s = (j + 1) % 3, t = (j + 2) % 3;
        LD u = static_cast<LD>(a[p][s]) * a[q][t], w = static_cast<LD>(a[p][t]) * a[q][s];
        abssum = fabsl(u) + fabsl(w);
        return u - w;  // cofactor (i, j)
    };
    LD det = 0, detAbs = 0, t;
    for (int j = 0; j < 3; ++j) { LD m = minor(0, j, t); det += a[0][j] * m; detAbs += fabsl(static_cast<LD>(a[0][j])) * t; }
    if (fabsl(det) > 1e-8L * detAbs && detAbs > 1e-30L) {
        Matrix3d I = A.inverse();
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            LD m = minor(i, j, t), want = m / det;
            c.check(close(I(j, i), want, 8 * EPS * (t / fabsl(det) + fabsl(want) * detAbs / fabsl(det))), "matrix-inverse", [&] { return toStr(A) + " inverse " + toStr(I); });
        }
        c.count("inverses");
    }
    c.sample(msg);
}

SECTION(angles, 500000) {
    Rng & r = c.rng;
    double a = finiteDouble(r), b = finiteDouble(r), s = finiteDouble(r);
    if (r.chance(.5)) { a = r.uni(-20, 20); b = r.uni(-20, 20); }
    double key[3] = {a, b, s};
    c.eval(hashBytes(key, sizeof key));
    auto msg = [&] { return str(a) + ", " + str(b) + ", " + str(s); };
    Angle A(a), B(b);
    auto same = [](double x, double y) { return x == y || (x != x && y != y); };
    c.check(A.asRadians() == a && Angle::fromRadians(a).asRadians() == a && Angle().asRadians() == 0 && Angle::nan().isNan() && !A.isNan() && Angle(NaN).isNan(), "angle-value", msg);
    c.check((A == B) == (a == b) && (A != B) == (a != b) && (A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b), "angle-comparison", msg);
    c.check(same((A + B).asRadians(), a + b) && same((A - B).asRadians(), a - b) && same((-A).asRadians(), -a) && same((A * s).asRadians(), a * s) && same((s * A).asRadians(), a * s) &&
            same((A / s).asRadians(), a / s) && same(A / B, a / b), "angle-arithmetic", msg);
    Angle t = A; t += B; c.check(same(t.asRadians(), a + b), "angle-plus-assign", msg);
    t = A; t -= B; c.check(same(t.asRadians(), a - b), "angle-minus-assign", msg);
    t = A; t *= s; c.check(same(t.asRadians(), a * s), "angle-times-assign", msg);
    t = A; t /= s; c.check(same(t.asRadians(), a / s), "angle-divide-assign", msg);
    c.check(sin(A) == std::sin(a) && cos(A) == std::cos(a) && tan(A) == std::tan(a) && abs(A).asRadians() == std::fabs(a), "angle-functions", msg);
    c.check(A.isNormalized() == (a >= 0 && a <= 2 * PI), "angle-isNormalized", msg);
    LD const degl = 180 / PIL;
    if (std::fabs(a) < 1e300 && std::fabs(a) > 1e-300) {
        c.check(close(A.asDegrees(), a * degl, 4 * EPS * fabsl(a * degl)), "asDegrees", msg);
        c.check(close(Angle::fromDegrees(a).asRadians(), a / degl, 4 * EPS * fabsl(a / degl)), "fromDegrees", msg);
        c.check(close(Angle::fromDegrees(a).asDegrees(), a, 6 * EPS * fabsl(static_cast<LD>(a))), "degrees-round-trip", msg);
    }
    // normalization
    NormalizedAngle n(a), m(b);
    LD P = 2 * PI, f = fmodl(a, P);
    if (f < 0) f += P;
    double x = n.asRadians(), y = m.asRadians();
    c.check(x >= 0 && x <= 2 * PI && Angle(n).isNormalized(), "normalized-range", [&] { return msg() + " gave " + str(x); });
    LD e = fabsl(x - f); e = std::min(e, fabsl(P - e));
    c.check(e <= 4.5e-16L * 2, "normalized-value", [&] { return msg() + " gave " + str(x) + " not " + str(static_cast<double>(f)); });
    if (a >= 0 && a <= 2 * PI) c.check(x == a, "normalized-changed", msg);
    c.check(NormalizedAngle(A).asRadians() == x && NormalizedAngle::fromRadians(a).asRadians() == x && NormalizedAngle::fromDegrees(a).asRadians() == NormalizedAngle(Angle::fromDegrees(a)).asRadians() &&
            Angle(n).asRadians() == x && n.asDegrees() == Angle(x).asDegrees(), "normalized-conversions", msg);
    c.check((n == B) == (x == b) && (n != B) == (x != b) && (n < B) == (x < b) && (n > B) == (x > b) && (n <= B) == (x <= b) && (n >= B) == (x >= b), "normalized-comparison", msg);
    c.check(same((n + B).asRadians(), x + b) && same((n - B).asRadians(), x - b) && (-n).asRadians() == -x && same((n * s).asRadians(), x * s) && same((n / s).asRadians(), x / s) && same(n / B, x / b) && abs(n).asRadians() == x, "normalized-arithmetic", msg);
    c.check(NormalizedAngle(NaN).isNan() && NormalizedAngle::nan().isNan() && !n.isNan() && NormalizedAngle().asRadians() == 0, "normalized-nan", msg);
    if (r.chance(.2)) { m = NormalizedAngle(std::max(0.0, std::min(2 * PI, r.chance(.5) ? std::nextafter(x, 10) : std::nextafter(x, -10)))); y = m.asRadians(); }
    LD to = static_cast<LD>(y) - x; if (to < 0) to += P;
    double g = n.getAngleTo(m).asRadians();
    auto nm = [&] { return str(x) + " and " + str(y); };
    c.check(close(g, to, 8 * EPS) && g >= 0 && g <= 2 * PI, "getAngleTo", nm);
    double bt = NormalizedAngle::between(n, m).asRadians();
    LD d = fabsl(static_cast<LD>(y) - x);
    c.check(close(bt, std::min(d, P - d), 8 * EPS) && bt >= 0 && bt <= PI, "between", nm);
    c.check(NormalizedAngle::between(m, n).asRadians() == bt, "between-symmetric", nm);
    NormalizedAngle ce = NormalizedAngle::center(n, m);
    LD to1 = static_cast<LD>(ce.asRadians()) - x, to2 = static_cast<LD>(y) - ce.asRadians();
    if (to1 < 0) to1 += P;
    if (to2 < 0) to2 += P;
    LD dd = fabsl(to1 - to2); dd = std::min(dd, fabsl(P - dd));
    c.check(ce.asRadians() >= 0 && ce.asRadians() <= 2 * PI && dd <= 1e-14L, "center", [&] { return nm() + " gave " + str(ce.asRadians()); });
    // the center lies on the way from n to m
    if (to > 1e-12L && to < P - 1e-12L) c.check(fabsl(to1 - to / 2) < 1e-14L, "center-side", [&] { return nm() + " gave " + str(ce.asRadians()); });
    c.count(a < 0 || a > 2 * PI ? "angles reduced" : "angles already normalized");
    c.sample(msg);
}

SECTION(coordinates, 300000) {
    Rng & r = c.rng;
    double lon = r.chance(.3) ? r.range(-8, 16) * PI / 4 : r.uni(-7, 14), lat;
    switch (r.range(0, 4)) {
        case 0: lat = r.pick({PI / 2, -PI / 2, 0.0, PI / 4}); break;
        case 1: lat = (r.chance(.5) ? 1 : -1) * (PI / 2 - r.logUni(1e-16, 1)); break;
        case 2: lat = (r.chance(.5) ? 1 : -1) * r.logUni(1e-300, 1); break;
        default: lat = r.uni(-PI / 2, PI / 2);
    }
    lat = std::max(-PI / 2, std::min(PI / 2, lat));
    double key[2] = {lon, lat};
    c.eval(hashBytes(key, sizeof key));
    auto msg = [&] { return str(lon) + ", " + str(lat); };
    LonLat p = LonLat::fromRadians(lon, lat);
    c.check(p.getLon().asRadians() == NormalizedAngle(lon).asRadians() && p.getLat().asRadians() == lat, "lonlat-values", msg);
    c.check(LonLat{NormalizedAngle(lon), Angle(lat)} == p && !(p != LonLat{NormalizedAngle(lon), Angle(lat)}), "lonlat-equality", msg);
    double l = p.getLon().asRadians();
    c.check(p != LonLat{NormalizedAngle(l > 1 ? std::nextafter(l, 0) : std::nextafter(l, 10)), Angle(lat)} && !(p == LonLat{NormalizedAngle(l), Angle(lat > 0 ? std::nextafter(lat, -1) : std::nextafter(lat, 1))}), "lonlat-inequality", msg);
    UnitVector3d v(p), w(p.getLon(), p.getLat());
    V3 e = lonLat(l, lat);
    c.check(v == w && (V3(v) - e).norm() <= 4 * EPS, "unit-vector-from-lonlat", msg);
    LonLat q{Vector3d(v)};
    auto qm = [&] { return msg() + " became " + describe(v) + " and " + toStr(q); };
    c.check(q.getLon().asRadians() >= 0 && q.getLon().asRadians() <= 2 * PI && fabs(q.getLat().asRadians()) <= PI / 2, "lonlat-range", qm);
    c.check(close(q.getLat().asRadians(), lat, 6 * EPS), "latitude-round-trip", qm);
    LD dl = fabsl(static_cast<LD>(q.getLon().asRadians()) - l); dl = std::min(dl, fabsl(2 * PIL - dl));
    c.check(dl * cosl(lat) <= 8 * EPS, "longitude-round-trip", qm);
    // any vector
    UnitVector3d u = anyUnit(r);
    Vector3d x = r.chance(.5) ? Vector3d(u) : Vector3d(u) * r.logUni(1e-60, 1e60);
    LonLat k{x};
    V3 X = V3(x).unit();
    auto xm = [&] { return toStr(x) + " is at " + toStr(k); };
    c.check(LonLat::longitudeOf(x).asRadians() == k.getLon().asRadians() && LonLat::latitudeOf(x).asRadians() == k.getLat().asRadians(), "lonlat-parts", xm);
    c.check(close(k.getLat().asRadians(), latOf(X), 8 * EPS), "latitude-of", xm);
    LD h = sqrtl(X.x * X.x + X.y * X.y);
    LD ll = fabsl(static_cast<LD>(k.getLon().asRadians()) - lonOf(X)); ll = std::min(ll, fabsl(2 * PIL - ll));
    c.check(k.getLon().asRadians() >= 0 && k.getLon().asRadians() <= 2 * PI, "longitude-range", xm);
    if (h > 1e-90L) c.check(ll <= 12 * EPS, "longitude-of", xm);
    c.check((V3(UnitVector3d(k)) - X).norm() <= 2e-15L, "vector-round-trip", xm);
    // degrees
    double dlon = r.uni(-360, 720), dlat = r.uni(-90, 90);
    LonLat g = LonLat::fromDegrees(dlon, dlat);
    LD gl = fabsl(static_cast<LD>(g.getLon().asRadians()) - fmodl(dlon * PIL / 180 + 4 * PIL, 2 * PIL)); gl = std::min(gl, fabsl(2 * PIL - gl));
    c.check(gl <= 4e-15L && close(g.getLat().asRadians(), dlat * PIL / 180, 3e-16L), "lonlat-from-degrees", [&] { return str(dlon) + ", " + str(dlat); });
    // separations
    UnitVector3d b = r.chance(.4) ? nearUnit(r, u) : anyUnit(r);
    LD t = angleBetween(V3(u), V3(b));
    double s1 = r.chance(.5) ? 1.0 : r.logUni(1e-60, 1e60), s2 = r.chance(.5) ? 1.0 : r.logUni(1e-60, 1e60);
    double n1 = NormalizedAngle(Vector3d(u) * s1, Vector3d(b) * s2).asRadians();
    auto sm = [&] { return describe(u) + " and " + describe(b) + " are " + str(static_cast<double>(t)) + " apart"; };
    c.check(close(n1, t, 2e-15L) && n1 >= 0 && n1 <= PI, "angle-between-vectors", [&] { return sm() + " not " + str(n1); });
    LonLat pu{Vector3d(u)}, pb{Vector3d(b)};
    LD t2 = angleBetween(lonLat(pu.getLon().asRadians(), pu.getLat().asRadians()), lonLat(pb.getLon().asRadians(), pb.getLat().asRadians()));
    double n2 = NormalizedAngle(pu, pb).asRadians();
    c.check(close(n2, t2, 2e-15L + 1e-15L / std::max(cosl(t2 / 2), 1e-8L)) && n2 >= 0 && n2 <= PI, "angle-between-lonlats", [&] { return sm() + " not " + str(n2); });
    c.check(NormalizedAngle(Vector3d(u), Vector3d(u)).asRadians() <= 1e-16 && NormalizedAngle(pu, pu).asRadians() == 0, "angle-to-itself", sm);
    c.check(NormalizedAngle(Vector3d(), Vector3d(u)).asRadians() == 0, "angle-to-zero", sm);
    // invalid latitudes
    double bad = r.pick({std::nextafter(PI / 2, 2), -std::nextafter(PI / 2, 2), 2.0, -3.0, 1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
    try { LonLat z = LonLat::fromRadians(lon, bad); c.fail("bad-latitude-accepted", str(bad) + " " + toStr(z)); } catch (std::invalid_argument const &) { c.count("invalid latitudes rejected"); }
    LonLat nan1 = LonLat::fromRadians(NaN, lat), nan2 = LonLat::fromRadians(lon, NaN);
    c.check(nan1.getLon().isNan() && nan1.getLat().isNan() && nan2.getLon().isNan() && nan2.getLat().isNan(), "lonlat-nan", msg);
    c.sample(msg);
}
