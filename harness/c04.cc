// C04: orientation predicates against exact integer evaluation of the triple product.
#include "exact.h"
#include "lsst/sphgeom/orientation.h"
using namespace vh;
namespace {
void checkTriple(Ctx & c, UnitVector3d const & p, UnitVector3d const & q, UnitVector3d const & r) {
    int e = exactSign(p, q, r);
    c.count(e > 0 ? "sign_positive" : e < 0 ? "sign_negative" : "sign_zero");
    double m = p.dot(q.cross(r));
    if (std::fabs(m) < 1e-15) c.count("near_degenerate");
    double k[9] = {p.x(), p.y(), p.z(), q.x(), q.y(), q.z(), r.x(), r.y(), r.z()};
    c.eval(hashBytes(k, sizeof k));
    auto what = [&] { return describe(p) + " " + describe(q) + " " + describe(r) + " exact sign " + std::to_string(e); };
    UnitVector3d const * v[3] = {&p, &q, &r};
    static int const perm[6][4] = {{0, 1, 2, 1}, {1, 2, 0, 1}, {2, 0, 1, 1}, {0, 2, 1, -1}, {2, 1, 0, -1}, {1, 0, 2, -1}};
    for (auto const & t : perm) {
        int o = orientation(*v[t[0]], *v[t[1]], *v[t[2]]);
        c.check(o == t[3] * e, "orientation", [&] { return what() + ": orientation of permutation " + std::to_string(t[0]) + std::to_string(t[1]) + std::to_string(t[2]) + " is " + std::to_string(o); });
        int x = orientationExact(*v[t[0]], *v[t[1]], *v[t[2]]);
        c.check(x == t[3] * e, "orientation-exact", [&] { return what() + ": orientationExact of permutation " + std::to_string(t[0]) + std::to_string(t[1]) + std::to_string(t[2]) + " is " + std::to_string(x); });
    }
    c.sample(what);
}
// Axis variants: (b, c) against the exact sign with the axis as first argument.
void checkAxes(Ctx & c, UnitVector3d const & p, UnitVector3d const & q) {
    UnitVector3d ax[3] = {UnitVector3d::X(), UnitVector3d::Y(), UnitVector3d::Z()};
    int (*f[3])(UnitVector3d const &, UnitVector3d const &) = {orientationX, orientationY, orientationZ};
    for (int i = 0; i < 3; ++i) {
        int e = exactSign(ax[i], p, q);
        double k[7] = {p.x(), p.y(), p.z(), q.x(), q.y(), q.z(), double(i)};
        c.eval(hashBytes(k, sizeof k));
        int g = f[i](p, q), h = f[i](q, p);
        c.check(g == e && h == -e, "orientation-axis", [&] { return std::string("orientation") + "XYZ"[i] + " of " + describe(p) + " " + describe(q) + " is " + std::to_string(g) + ", swapped " + std::to_string(h) + ", exact " + std::to_string(e); });
        int o = orientation(ax[i], p, q);
        c.check(o == e, "orientation-axis-general", [&] { return std::string("orientation with axis ") + "XYZ"[i] + " " + describe(p) + " " + describe(q) + " is " + std::to_string(o) + ", exact " + std::to_string(e); });
    }
}
}  // namespace

SECTION(random_triples, 20000) {
    Rng & r = c.rng;
    checkTriple(c, anyUnit(r), anyUnit(r), anyUnit(r));
}
SECTION(near_coplanar, 60000) {
    Rng & r = c.rng;
    UnitVector3d p = anyUnit(r), q = r.chance(.5) ? nearUnit(r, p) : anyUnit(r);
    // r is (nearly) in the plane of p and q
    V3 P(p), Q(q);
    double s = r.uni(-2, 2), t = r.uni(-2, 2);
    V3 w = P * s + Q * t;
    UnitVector3d x = w.norm() < 1e-3L ? anyUnit(r) : toUnit(w);
    if (r.chance(.5)) x = UnitVector3d::fromNormalized(nudge(r, x.x()), nudge(r, x.y()), nudge(r, x.z()));
    if (r.chance(.2)) x = nearUnit(r, r.chance(.5) ? p : q);
    switch (r.range(0, 2)) {
        case 0: checkTriple(c, p, q, x); break;
        case 1: checkTriple(c, x, p, q); break;
        default: checkTriple(c, p, x, q);
    }
}
SECTION(planes, 40000) {
    // exactly coplanar configurations and one-ulp deviations from them
    Rng & r = c.rng;
    int k = static_cast<int>(r.below(3));
    UnitVector3d u[3] = {UnitVector3d::X(), UnitVector3d::X(), UnitVector3d::X()};
    double a0 = r.uni(0, 7);
    for (auto & x : u) {
        double a = r.chance(.5) ? r.uni(0, 7) : a0 + r.pick({0.0, PI, 1e-9, 1e-16});
        double v[3]; v[k] = r.chance(.6) ? 0.0 : tiny(r); v[(k + 1) % 3] = std::cos(a); v[(k + 2) % 3] = std::sin(a);
        if (r.chance(.2)) v[(k + 1) % 3] = tiny(r);
        x = UnitVector3d::fromNormalized(v[0], v[1], v[2]);
    }
    if (r.chance(.3)) u[2] = u[0];
    if (r.chance(.2)) u[2] = -u[1];
    checkTriple(c, u[0], u[1], u[2]);
}
SECTION(axes, 120000) {
    Rng & r = c.rng;
    UnitVector3d p = anyUnit(r);
    UnitVector3d q = r.chance(.3) ? anyUnit(r) : nearUnit(r, p);
    if (r.chance(.5)) {
        // q nearly in the plane of p and an axis
        int i = static_cast<int>(r.below(3));
        double v[3] = {p.x(), p.y(), p.z()}, s = r.pick({1.0, -1.0, 0.5, 2.0, 0.3, r.uni()});
        for (double & t : v) t *= s;
        v[i] = r.chance(.7) ? r.uni(-1, 1) : tiny(r);
        for (int j = 0; j < 3; ++j) if (j != i && r.chance(.4)) v[j] = nudge(r, v[j]);
        double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
        if (n > 1e-3 && r.chance(.7)) for (double & t : v) t /= n;
        q = UnitVector3d::fromNormalized(v[0], v[1], v[2]);
    }
    checkAxes(c, p, q);
    c.sample([&] { return describe(p) + " " + describe(q); });
}
SECTION(exact_any_finite, 20000) {
    // orientationExact accepts any finite vectors
    Rng & r = c.rng;
    Vector3d v[3];
    bool dup = r.chance(.2);
    for (auto & x : v) {
        double d[3];
        for (double & t : d) { t = r.chance(.5) ? fromBits(r.u64()) : finiteDouble(r); if (!std::isfinite(t)) t = 1; }
        x = Vector3d(d[0], d[1], d[2]);
    }
    if (dup) v[2] = v[r.below(2)] * r.pick({1.0, -1.0, 2.0, 0.5});
    if (!std::isfinite(v[2].x()) || !std::isfinite(v[2].y()) || !std::isfinite(v[2].z())) v[2] = v[0];
    int e = exactSign(v[0], v[1], v[2]), g = orientationExact(v[0], v[1], v[2]), h = orientationExact(v[1], v[0], v[2]);
    double k[9] = {v[0].x(), v[0].y(), v[0].z(), v[1].x(), v[1].y(), v[1].z(), v[2].x(), v[2].y(), v[2].z()};
    c.eval(hashBytes(k, sizeof k));
    c.count(e == 0 ? "exact_zero" : "exact_nonzero");
    c.check(g == e && h == -e, "orientation-exact-finite", [&] { std::ostringstream o; o.precision(17); o << v[0] << " " << v[1] << " " << v[2] << " gives " << g << ", swapped " << h << ", exact " << e; return o.str(); });
}
