// Hostile and geometric generators, and a long double geometry oracle.
#pragma once
#include "vh.h"
#include <algorithm>
#include <memory>

#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/Region.h"
#include "lsst/sphgeom/Relationship.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
#include "lsst/sphgeom/constants.h"

namespace vh {
using namespace lsst::sphgeom;
typedef long double LD;

constexpr LD PIL = 3.14159265358979323846264338327950288L;

// ------------------------------------------------------------------ oracle

struct V3 {
    LD x, y, z;
    V3(LD a = 0, LD b = 0, LD c = 0) : x(a), y(b), z(c) {}
    V3(Vector3d const & v) : x(v.x()), y(v.y()), z(v.z()) {}
    V3(UnitVector3d const & v) : x(v.x()), y(v.y()), z(v.z()) {}
    V3 operator+(V3 o) const { return {x + o.x, y + o.y, z + o.z}; }
    V3 operator-(V3 o) const { return {x - o.x, y - o.y, z - o.z}; }
    V3 operator-() const { return {-x, -y, -z}; }
    V3 operator*(LD s) const { return {x * s, y * s, z * s}; }
    LD dot(V3 o) const { return x * o.x + y * o.y + z * o.z; }
    V3 cross(V3 o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
    LD norm() const {
        LD m = std::max({fabsl(x), fabsl(y), fabsl(z)});
        if (!(m > 0) || std::isinf(m)) return m;
        LD a = x / m, b = y / m, c = z / m;
        return m * sqrtl(a * a + b * b + c * c);
    }
    V3 unit() const { LD n = norm(); return {x / n, y / n, z / n}; }
};

inline LD angleBetween(V3 a, V3 b) { return atan2l(a.cross(b).norm(), a.dot(b)); }

inline V3 rotateAround(V3 v, V3 axis, LD a) {
    V3 k = axis.unit();
    return v * cosl(a) + k.cross(v) * sinl(a) + k * (k.dot(v) * (1 - cosl(a)));
}

inline V3 anyOrthogonal(V3 v) {
    V3 e = fabsl(v.x) < 0.6L ? V3(1, 0, 0) : (fabsl(v.y) < 0.6L ? V3(0, 1, 0) : V3(0, 0, 1));
    return v.cross(e).unit();
}

inline UnitVector3d toUnit(V3 v) {
    v = v.unit();
    return UnitVector3d::fromNormalized(static_cast<double>(v.x), static_cast<double>(v.y), static_cast<double>(v.z));
}

inline V3 lonLat(LD lon, LD lat) { return {cosl(lon) * cosl(lat), sinl(lon) * cosl(lat), sinl(lat)}; }
inline LD lonOf(V3 v) { LD l = atan2l(v.y, v.x); return l < 0 ? l + 2 * PIL : l; }
inline LD latOf(V3 v) { return atan2l(v.z, sqrtl(v.x * v.x + v.y * v.y)); }

// The margin of p in a region is positive if p is inside and negative if it
// is outside; its absolute value never exceeds the angular distance from p to
// the region's boundary. It is +-INFM for full and empty regions.
constexpr LD INFM = 100;

inline LD marginCircle(V3 center, LD angle, V3 p) {
    if (angle < 0) return -INFM;
    if (angle >= PIL) return INFM;
    return angle - angleBetween(center, p);
}

inline LD marginEllipse(V3 f1, V3 f2, LD alpha, V3 p) {
    return alpha - 0.5L * (angleBetween(f1, p) + angleBetween(f2, p));
}

inline LD marginPolygon(std::vector<V3> const & v, V3 p) {
    LD m = INFM;
    p = p.unit();
    for (size_t i = 0; i < v.size(); ++i) {
        V3 const & a = v[i];
        V3 const & b = v[(i + 1) % v.size()];
        // (a + b) x (b - a) = 2 a x b, but accurate for close a and b.
        V3 n = (a + b).cross(b - a).unit();
        m = std::min(m, asinl(std::max<LD>(-1, std::min<LD>(1, n.dot(p)))));
    }
    return m;
}

// Distance between p and the half great circle of longitude lon.
inline LD meridianDistance(V3 p, LD lon) {
    p = p.unit();
    V3 m(cosl(lon), sinl(lon), 0), n(-sinl(lon), cosl(lon), 0);
    if (p.dot(m) <= 0) return std::min(angleBetween(p, {0, 0, 1}), angleBetween(p, {0, 0, -1}));
    return fabsl(asinl(std::max<LD>(-1, std::min<LD>(1, p.dot(n)))));
}

inline LD marginBoxParams(LD lonA, LD lonB, bool lonFull, LD latA, LD latB, V3 p) {
    LD lat = latOf(p);
    LD m = std::min(lat - latA, latB - lat);
    if (latA <= -PIL / 2 + 1e-18L) m = latB - lat;
    if (latB >= PIL / 2 - 1e-18L) m = latA <= -PIL / 2 + 1e-18L ? INFM : lat - latA;
    if (lonFull) return m;
    LD lon = lonOf(p);
    bool in = lonA <= lonB ? (lon >= lonA && lon <= lonB) : (lon >= lonA || lon <= lonB);
    LD d = std::min(meridianDistance(p, lonA), meridianDistance(p, lonB));
    return std::min(m, in ? d : -d);
}

inline LD margin(Region const & r, V3 p);

inline LD marginBox(Box const & b, V3 p) {
    if (b.isEmpty()) return -INFM;
    return marginBoxParams(b.getLon().getA().asRadians(), b.getLon().getB().asRadians(), b.getLon().isFull(),
                           b.getLat().getA().asRadians(), b.getLat().getB().asRadians(), p);
}

inline LD margin(Region const & r, V3 p) {
    if (auto c = dynamic_cast<Circle const *>(&r)) {
        if (c->isEmpty()) return -INFM;
        if (c->isFull()) return INFM;
        return marginCircle(c->getCenter(), c->getOpeningAngle().asRadians(), p);
    }
    if (auto e = dynamic_cast<Ellipse const *>(&r)) {
        if (e->isEmpty()) return -INFM;
        if (e->isFull()) return INFM;
        // Compute the foci with extra precision.
        Matrix3d const & S = e->getTransformMatrix();
        V3 b0 = V3(S(0, 0), S(0, 1), S(0, 2)).unit(), b2 = V3(S(2, 0), S(2, 1), S(2, 2)).unit();
        LD g = e->getGamma().asRadians();
        return marginEllipse(b2 * cosl(g) + b0 * sinl(g), b2 * cosl(g) - b0 * sinl(g), e->getAlpha().asRadians(), p);
    }
    if (auto g = dynamic_cast<ConvexPolygon const *>(&r)) {
        std::vector<V3> v(g->getVertices().begin(), g->getVertices().end());
        return marginPolygon(v, p);
    }
    if (auto b = dynamic_cast<Box const *>(&r)) return marginBox(*b, p);
    if (auto u = dynamic_cast<UnionRegion const *>(&r)) return std::max(margin(u->getOperand(0), p), margin(u->getOperand(1), p));
    if (auto i = dynamic_cast<IntersectionRegion const *>(&r)) return std::min(margin(i->getOperand(0), p), margin(i->getOperand(1), p));
    std::abort();
}

// -------------------------------------------------------------- generators

inline double hostileDouble(Rng & r) {
    switch (r.range(0, 13)) {
        case 0: return r.pick({0.0, -0.0, 1.0, -1.0, 2.0, 0.5, -0.5});
        case 1: return std::numeric_limits<double>::quiet_NaN();
        case 2: return r.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
        case 3: return r.pick({5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-310});
        case 4: return fromBits(r.u64());
        case 5: return (r.chance(.5) ? -1 : 1) * std::pow(10.0, r.uni(-320, 308));
        case 6: { double d = r.range(-12, 12) * (PI / 4); int k = r.range(-2, 2); while (k > 0) d = std::nextafter(d, 1e9), --k; while (k < 0) d = std::nextafter(d, -1e9), ++k; return d; }
        case 7: return r.uni(-10, 10);
        case 8: return r.uni(-PI, PI);
        case 9: return r.range(-400, 400);
        case 10: return (r.chance(.5) ? -1 : 1) * r.logUni(1e-18, 1e-2);
        case 11: return r.pick({2147483647.0, 2147483648.0, -2147483649.0, 9.3e18, 1.9e19, -9.3e18, 4.3e9});
        default: return r.uni(-2, 2);
    }
}

inline double finiteDouble(Rng & r) { for (;;) { double d = hostileDouble(r); if (std::isfinite(d)) return d; } }

// A unit vector component that is tiny, often a denormal.
inline double tiny(Rng & r) {
    double d = r.pick({0.0, 5e-324, 1e-310, 1e-200, 1e-160, 1e-30, 1e-17, 1e-16, 1e-9, 1e-3}) * (r.chance(.3) ? r.uni(0.5, 8) : 1.0);
    return r.chance(.5) ? -d : d;
}

inline UnitVector3d fromV(double x, double y, double z) {
    double n = std::sqrt(x * x + y * y + z * z);
    return UnitVector3d::fromNormalized(x / n, y / n, z / n);
}

inline UnitVector3d randomUnit(Rng & r) {
    for (;;) {
        double x = r.gauss(), y = r.gauss(), z = r.gauss(), n = x * x + y * y + z * z;
        if (n > 1e-6) return fromV(x, y, z);
    }
}

// Unit vectors with special structure: axes, coordinate planes, cube and octahedron edges, poles, ...
inline UnitVector3d specialUnit(Rng & r) {
    double v[3];
    switch (r.range(0, 7)) {
        case 0: { v[0] = v[1] = v[2] = 0; v[r.below(3)] = r.chance(.5) ? 1 : -1; if (r.chance(.3)) v[r.below(3)] += 0.0; break; }
        case 1: { int k = static_cast<int>(r.below(3)); v[k] = r.chance(.5) ? 1 : -1; v[(k + 1) % 3] = tiny(r); v[(k + 2) % 3] = tiny(r); break; }
        case 2: { int k = static_cast<int>(r.below(3)); double a = r.uni(0, 2 * PI); v[k] = r.chance(.5) ? 0.0 : tiny(r); v[(k + 1) % 3] = std::cos(a); v[(k + 2) % 3] = std::sin(a); break; }
        case 3: { for (double & c : v) c = r.pick({-1.0, 0.0, 1.0, 0.5, -0.5}); if (v[0] == 0 && v[1] == 0 && v[2] == 0) v[0] = 1; break; }
        case 4: { double t = r.uni(-1.2, 1.2); int k = static_cast<int>(r.below(3)); v[k] = r.chance(.5) ? 1 : -1; v[(k + 1) % 3] = (r.chance(.5) ? 1 : -1) * (1 + tiny(r)); v[(k + 2) % 3] = t; break; }
        case 5: { double z = r.chance(.5) ? 2.0 / 3 : -2.0 / 3, a = r.uni(0, 2 * PI), s = std::sqrt(1 - z * z); v[0] = s * std::cos(a); v[1] = s * std::sin(a); v[2] = z + tiny(r); break; }
        case 6: { double lon = r.range(0, 24) * PI / 12, lat = r.range(-6, 6) * PI / 12; v[0] = std::cos(lon) * std::cos(lat); v[1] = std::sin(lon) * std::cos(lat); v[2] = std::sin(lat); break; }
        default: { double lon = r.uni(0, 2 * PI), t = r.logUni(1e-17, 0.1); v[0] = t * std::cos(lon); v[1] = t * std::sin(lon); v[2] = r.chance(.5) ? 1 : -1; break; }
    }
    return fromV(v[0], v[1], v[2]);
}

inline double nudge(Rng & r, double d) {
    int k = r.range(-3, 3);
    for (; k > 0; --k) d = std::nextafter(d, 2.0);
    for (; k < 0; ++k) d = std::nextafter(d, -2.0);
    return d;
}

inline V3 offset(Rng & r, V3 c, LD dist) {
    V3 b = rotateAround(anyOrthogonal(c), c, r.uni(0, 2 * PI));
    return c * cosl(dist) + b * sinl(dist);
}

// A vector close to v, or its antipode.
inline UnitVector3d nearUnit(Rng & r, UnitVector3d const & v) {
    switch (r.range(0, 5)) {
        case 0: return UnitVector3d::fromNormalized(nudge(r, v.x()), nudge(r, v.y()), nudge(r, v.z()));
        case 1: return v;
        case 2: return -v;
        case 3: { UnitVector3d w = -v; return UnitVector3d::fromNormalized(nudge(r, w.x()), nudge(r, w.y()), nudge(r, w.z())); }
        default: return toUnit(offset(r, V3(v), r.logUni(1e-17, 1e-1)));
    }
}

inline UnitVector3d anyUnit(Rng & r) { return r.chance(.5) ? randomUnit(r) : specialUnit(r); }

// A size (angle) for a region: from rounding level to the whole sphere.
inline double anySize(Rng & r) {
    switch (r.range(0, 5)) {
        case 0: return r.logUni(1e-12, 1e-3);
        case 1: return r.pick({PI / 2, PI / 4, PI, PI / 3, 1e-3, 1e-6, 0.0, 3.0});
        case 2: return r.uni(PI / 2, PI);
        case 3: return r.logUni(1e-5, 1);
        default: return r.uni(0.001, 1.5);
    }
}

typedef std::unique_ptr<Region> RegionPtr;

// What a region was made from, for diagnostics.
inline std::string describe(Region const & r) {
    std::ostringstream o;
    o.precision(17);
    if (auto c = dynamic_cast<Circle const *>(&r)) o << *c;
    else if (auto e = dynamic_cast<Ellipse const *>(&r)) o << *e;
    else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) o << *p;
    else if (auto b = dynamic_cast<Box const *>(&r)) o << *b;
    else if (auto q = dynamic_cast<CompoundRegion const *>(&r))
        o << (dynamic_cast<UnionRegion const *>(&r) ? "Union(" : "Intersection(") << describe(q->getOperand(0)) << ", " << describe(q->getOperand(1)) << ")";
    return o.str();
}

inline std::string describe(UnitVector3d const & v) { return "(" + str(v.x()) + ", " + str(v.y()) + ", " + str(v.z()) + ")"; }
inline std::string describe(V3 v) { char b[160]; std::snprintf(b, sizeof b, "(%.21Lg, %.21Lg, %.21Lg)", v.x, v.y, v.z); return b; }

inline Circle makeCircle(Rng & r, UnitVector3d const & center, double size) {
    switch (r.range(0, 19)) {
        case 0: return Circle::empty();
        case 1: return Circle::full();
        case 2: return Circle(center);
        case 3: return Circle(center, 4 * std::pow(std::sin(size / 2), 2));
        default: return Circle(center, Angle(size));
    }
}

inline Box makeBox(Rng & r, UnitVector3d const & center, double size) {
    LonLat ll(center);
    double s = size * r.pick({1.0, 1.0, 0.3, 0.01, 0.0});
    double w = std::min(size / std::max(1e-3, std::cos(ll.getLat().asRadians())), 3.2);
    switch (r.range(0, 15)) {
        case 0: return Box::empty();
        case 1: return Box::full();
        case 2: return Box(ll);
        case 3: return Box(Box::allLongitudes(), AngleInterval(ll.getLat() - Angle(s), ll.getLat() + Angle(s)));
        case 4: return Box(NormalizedAngleInterval(ll.getLon(), ll.getLon() + Angle(w)), Box::allLatitudes());
        case 5: return Box(NormalizedAngleInterval(Angle(ll.getLon()) - Angle(w), ll.getLon() + Angle(w)), AngleInterval(ll.getLat(), Angle(PI / 2)));
        case 6: return Box(ll, LonLat(anyUnit(r)));
        case 7: { Angle a = Angle(r.range(0, 7) * PI / 4); return Box(NormalizedAngleInterval(a, a + Angle(r.range(0, 8) * PI / 4)), AngleInterval(Angle(r.range(-2, 1) * PI / 4), Angle(r.range(-1, 2) * PI / 4))); }
        default: return Box(ll, Angle(r.chance(.5) ? w : w * r.uni()), Angle(s));
    }
}

inline Ellipse makeEllipse(Rng & r, UnitVector3d const & center, double size) {
    switch (r.range(0, 11)) {
        case 0: return Ellipse::empty();
        case 1: return Ellipse::full();
        case 2: return Ellipse(center, Angle(size));
        case 3: case 4: {
            UnitVector3d f = toUnit(offset(r, V3(center), size * r.pick({1.0, 0.999999, 0.5, 1e-3, 1.01}) * r.uni()));
            return Ellipse(center, f, Angle(size));
        }
        default: {
            double b = size * r.pick({1.0, 0.999, 0.5, 0.1, 1e-3});
            if (size > PI / 2) b = PI - (PI - size) * r.pick({1.0, 0.999, 0.5, 0.1});
            if (size == PI / 2) b = size;
            double a = size;
            if (r.chance(.3)) std::swap(a, b);
            return Ellipse(center, Angle(a), Angle(b), Angle(r.chance(.3) ? r.range(0, 8) * PI / 4 : r.uni(-7, 7)));
        }
    }
}

// Vertices of a convex polygon in counter-clockwise order around center.
inline std::vector<V3> ringAround(Rng & r, V3 center, LD size, int n, bool jitter) {
    std::vector<double> a;
    double start = r.uni(0, 2 * PI);
    for (int i = 0; i < n; ++i) a.push_back(jitter ? start + r.uni(0, 2 * PI) : start + i * 2 * PI / n);
    std::sort(a.begin(), a.end());
    std::vector<V3> v;
    V3 b = anyOrthogonal(center), b2 = center.unit().cross(b);
    for (double x : a) v.push_back(center * cosl(size) + (b * cosl(x) + b2 * sinl(x)) * sinl(size));
    return v;
}

// Throws if the generated points have no valid hull; callers retry.
inline ConvexPolygon makePolygon(Rng & r, UnitVector3d const & center, double size) {
    size = std::max(1e-14, std::min(size, 1.55));
    std::vector<UnitVector3d> pts;
    V3 c(center);
    switch (r.range(0, 7)) {
        case 0: {  // random points in a disc
            int n = r.range(3, 12);
            for (int i = 0; i < n; ++i) pts.push_back(toUnit(offset(r, c, size * r.uni())));
            break;
        }
        case 1: {  // sliver
            V3 d = offset(r, c, size), m = (c + d).unit();
            V3 n = c.cross(d).unit();
            LD t = size * r.pick({1e-1, 1e-3, 1e-6});
            pts = {toUnit(c), toUnit(d), toUnit(m + n * t)};
            if (r.chance(.5)) pts.push_back(toUnit(m - n * t));
            break;
        }
        case 2: {  // an octant, possibly with nudged corners
            double s[3] = {r.chance(.5) ? 1.0 : -1.0, r.chance(.5) ? 1.0 : -1.0, r.chance(.5) ? 1.0 : -1.0};
            for (int k = 0; k < 3; ++k) { double v[3] = {0, 0, 0}; v[k] = s[k]; pts.push_back(UnitVector3d::fromNormalized(v[0], v[1], v[2])); }
            if (r.chance(.3)) pts.push_back(fromV(s[0], s[1], 0));
            break;
        }
        case 3: {  // lon/lat aligned quad
            LonLat ll(center);
            double lon = ll.getLon().asRadians(), lat = ll.getLat().asRadians();
            for (int i = -1; i <= 1; i += 2) for (int j = -1; j <= 1; j += 2) pts.push_back(toUnit(lonLat(lon + i * size, std::max(-1.57, std::min(1.57, lat + j * size / 2)))));
            break;
        }
        default: {
            int n = r.range(3, 10);
            for (V3 v : ringAround(r, c, size, n, r.chance(.6))) pts.push_back(toUnit(v));
        }
    }
    return ConvexPolygon(pts);
}

enum Kind { CIRCLE, ELLIPSE, BOX, POLYGON, UNION, INTERSECTION, NKINDS };
inline char const * kindName(int k) { static char const * n[] = {"Circle", "Ellipse", "Box", "ConvexPolygon", "Union", "Intersection"}; return n[k]; }

// `spread` controls how far the parts of compounds are from each other.
inline RegionPtr makeRegion(Rng & r, int kind, UnitVector3d const & center, double size, int depth = 0) {
    for (int attempt = 0;; ++attempt) {
        try {
            switch (kind) {
                case CIRCLE: return std::make_unique<Circle>(makeCircle(r, center, size));
                case ELLIPSE: return std::make_unique<Ellipse>(makeEllipse(r, center, size));
                case BOX: return std::make_unique<Box>(makeBox(r, center, size));
                case POLYGON: return std::make_unique<ConvexPolygon>(makePolygon(r, center, size));
                default: {
                    int k1 = r.range(0, depth >= 2 ? 3 : 5), k2 = r.range(0, depth >= 2 ? 3 : 5);
                    UnitVector3d c2 = r.chance(.5) ? center : toUnit(offset(r, V3(center), std::min(3.0, size * r.uni(0, 3))));
                    auto a = makeRegion(r, k1, center, size, depth + 1);
                    auto b = makeRegion(r, k2, c2, std::min(3.1, size * r.logUni(0.1, 3)), depth + 1);
                    if (kind == UNION) return std::make_unique<UnionRegion>(*a, *b);
                    return std::make_unique<IntersectionRegion>(*a, *b);
                }
            }
        } catch (std::invalid_argument const &) {
            // Unlucky polygon: nudge the size, or fall back to a simple one.
            if (attempt > 8) {
                auto ring = ringAround(r, V3(center), std::max(1e-6, std::min(1.0, size)), 4, false);
                std::vector<UnitVector3d> pts;
                for (V3 v : ring) pts.push_back(toUnit(v));
                return std::make_unique<ConvexPolygon>(pts);
            }
            if (size < 1e-7) size *= 10;
        }
    }
}

inline RegionPtr anyRegion(Rng & r, int kind = -1) {
    if (kind < 0) kind = r.range(0, NKINDS - 1);
    return makeRegion(r, kind, anyUnit(r), anySize(r));
}

// A region near `a`, often sharing vertices, boundaries, center or size with it.
inline RegionPtr relatedRegion(Rng & r, Region const & a, int kind) {
    UnitVector3d center = UnitVector3d::Z();
    double size = 0.1;
    Circle bc = a.getBoundingCircle();
    if (!bc.isEmpty()) { center = bc.getCenter(); size = std::max(1e-12, std::min(bc.getOpeningAngle().asRadians(), 3.1)); }
    double f = r.pick({1.0, 1.0, 0.5, 2.0, 0.1, 0.999999999, 1.000000001, 1e-3}) * (r.chance(.3) ? r.uni(.5, 1.5) : 1.0);
    double s2 = std::min(3.1, size * f);
    switch (r.range(0, 7)) {
        case 0: return anyRegion(r, kind);
        case 1: return makeRegion(r, kind, -center, std::min(3.1, std::max(0.0, PI - size * f)));
        case 2: {  // touching from outside
            return makeRegion(r, kind, toUnit(offset(r, V3(center), std::min(3.1, (size + s2) * r.pick({1.0, 0.99, 1.01, 0.9, 1.1})))), s2);
        }
        case 3: {  // touching from inside
            return makeRegion(r, kind, toUnit(offset(r, V3(center), std::fabs(size - s2) * r.pick({1.0, 0.99, 1.01, 0.5}))), s2);
        }
        case 4: {
            if (auto p = dynamic_cast<ConvexPolygon const *>(&a)) {
                UnitVector3d v = r.pick(p->getVertices());
                if (kind == POLYGON && r.chance(.7)) {
                    // shares vertices with a
                    std::vector<UnitVector3d> pts;
                    for (auto const & w : p->getVertices()) if (r.chance(.6)) pts.push_back(w);
                    int extra = r.range(1, 3);
                    for (int i = 0; i < extra; ++i) pts.push_back(toUnit(offset(r, V3(v), size * r.uni())));
                    try { return std::make_unique<ConvexPolygon>(pts); } catch (std::invalid_argument const &) {}
                }
                return makeRegion(r, kind, v, s2);
            }
            return makeRegion(r, kind, center, size);
        }
        default: return makeRegion(r, kind, toUnit(offset(r, V3(center), std::min(3.1, size * r.uni(0, 2.2)))), s2);
    }
}

// Points worth testing against a region: near its boundary, its extremes, inside and outside.
inline void addPoints(Rng & r, Region const & a, std::vector<V3> & out, int n) {
    if (auto q = dynamic_cast<CompoundRegion const *>(&a)) {
        addPoints(r, q->getOperand(0), out, (n + 1) / 2);
        addPoints(r, q->getOperand(1), out, (n + 1) / 2);
        return;
    }
    auto around = [&](V3 p, LD scale) {
        out.push_back(p);
        out.push_back(offset(r, p, scale * r.pick({1e-1, 1e-2, 1e-4, 1e-7})));
        out.push_back(offset(r, p, r.pick({3e-14, 1e-12, 1e-9, 1e-7})));
    };
    if (auto c = dynamic_cast<Circle const *>(&a)) {
        if (c->isEmpty()) return;
        LD s = std::min<LD>(PIL, c->getOpeningAngle().asRadians());
        V3 ctr = V3(c->getCenter()).unit();
        out.push_back(ctr); out.push_back(-ctr);
        for (int i = 0; i < n; ++i) around(offset(r, ctr, s * r.pick({1.0L, 1.0L, 1 - 1e-6L, 1 + 1e-6L, static_cast<LD>(r.uni())})), s);
        // points of extremal latitude
        V3 z(0, 0, 1);
        V3 t = z - ctr * ctr.dot(z);
        if (t.norm() > 1e-9L) { t = t.unit(); out.push_back(ctr * cosl(s) + t * sinl(s)); out.push_back(ctr * cosl(s) - t * sinl(s)); }
    } else if (auto e = dynamic_cast<Ellipse const *>(&a)) {
        if (e->isEmpty()) return;
        Matrix3d const & S = e->getTransformMatrix();
        V3 b0(S(0, 0), S(0, 1), S(0, 2)), b1(S(1, 0), S(1, 1), S(1, 2)), b2(S(2, 0), S(2, 1), S(2, 2));
        LD al = std::max<LD>(0, std::min<LD>(PIL, e->getAlpha().asRadians())), be = std::max<LD>(0, std::min<LD>(PIL, e->getBeta().asRadians()));
        LD ta = 1 / tanl(al), tb = 1 / tanl(be);
        out.push_back(b2); out.push_back(-b2);
        for (int i = 0; i < n; ++i) {
            LD t = r.chance(.3) ? static_cast<LD>(r.range(0, 3)) * PIL / 2 : static_cast<LD>(r.uni(0, 2 * PI));
            // boundary direction: cot(rho)^2 = cos^2 t cot^2 a + sin^2 t cot^2 b
            LD k = sqrtl(cosl(t) * cosl(t) * ta * ta + sinl(t) * sinl(t) * tb * tb);
            LD rho = atan2l(1, k);
            if (al > PIL / 2) rho = PIL - rho;
            V3 d = b0 * cosl(t) + b1 * sinl(t);
            LD f = r.pick({1.0L, 1 - 1e-6L, 1 + 1e-6L, static_cast<LD>(r.uni())});
            around(b2 * cosl(rho * f) + d * sinl(rho * f), rho);
        }
    } else if (auto p = dynamic_cast<ConvexPolygon const *>(&a)) {
        auto const & v = p->getVertices();
        for (int i = 0; i < n; ++i) {
            size_t k = r.below(v.size());
            V3 x(v[k]), y(v[(k + 1) % v.size()]);
            LD s = angleBetween(x, y);
            switch (r.range(0, 4)) {
                case 0: around(x, s); break;
                case 1: case 2: {
                    V3 m = (x + (y - x) * r.uni()).unit();
                    around(m, s);
                    // extremal point of the edge's great circle, if on the edge
                    break;
                }
                default: {
                    V3 m;
                    for (auto const & w : v) { LD t = r.uni(); m = m + V3(w) * (t * t * t); }
                    around(m.unit(), s);
                }
            }
        }
        for (size_t k = 0; k < v.size() && static_cast<int>(k) < n; ++k) {
            // the points of an edge that are extremal along z
            V3 x(v[k]), y(v[(k + 1) % v.size()]);
            V3 nrm = (x + y).cross(y - x).unit();
            V3 t = V3(0, 0, 1) - nrm * nrm.z;
            if (t.norm() < 1e-9L) continue;
            t = t.unit();
            for (int sgn = -1; sgn <= 1; sgn += 2) {
                V3 q = t * sgn;
                if (nrm.cross(x).dot(q) >= 0 && y.cross(nrm).dot(q) * -1 <= 0) out.push_back(q);
            }
        }
    } else if (auto b = dynamic_cast<Box const *>(&a)) {
        if (b->isEmpty()) return;
        LD la = b->getLon().getA().asRadians(), lb = b->getLon().getB().asRadians();
        if (lb < la) lb += 2 * PIL;
        LD ta = b->getLat().getA().asRadians(), tb = b->getLat().getB().asRadians();
        LD s = std::max(lb - la, tb - ta);
        for (int i = 0; i < n; ++i) {
            LD u = r.pick({0.0, 1.0, 0.5, r.uni(), r.uni()}), w = r.pick({0.0, 1.0, 0.5, r.uni(), r.uni()});
            around(lonLat(la + u * (lb - la), ta + w * (tb - ta)), s);
        }
        if (ta <= 0 && tb >= 0) out.push_back(lonLat(la, 0));
    }
}

inline std::vector<V3> testPoints(Rng & r, Region const & a, int n) {
    std::vector<V3> p;
    addPoints(r, a, p, n);
    p.erase(std::remove_if(p.begin(), p.end(), [](V3 v) { return !std::isfinite(v.x + v.y + v.z) || !(v.norm() > 0); }), p.end());
    for (int i = 0; i < n / 4 + 2; ++i) p.push_back(V3(anyUnit(r)).unit());
    return p;
}

inline std::uint64_t hashRegion(Region const & r) { auto e = r.encode(); return hashBytes(e.data(), e.size()); }

}  // namespace vh
