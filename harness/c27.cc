// C27: areas, centroids and distance helpers against 113-bit or long double evaluations.
#include "vh.h"
#include "gen.h"
#include "spec.h"
#include "lsst/sphgeom/utils.h"
#include <quadmath.h>
using namespace vh;

namespace {

typedef __float128 Q;
struct Q3 {
    Q x = 0, y = 0, z = 0;
    Q3() = default;
    Q3(Q a, Q b, Q c) : x(a), y(b), z(c) {}
    explicit Q3(Vector3d const & v) : x(v.x()), y(v.y()), z(v.z()) {}
    explicit Q3(UnitVector3d const & v) : x(v.x()), y(v.y()), z(v.z()) {}
    Q3 operator+(Q3 o) const { return {x + o.x, y + o.y, z + o.z}; }
    Q3 operator-(Q3 o) const { return {x - o.x, y - o.y, z - o.z}; }
    Q3 operator*(Q s) const { return {x * s, y * s, z * s}; }
    Q dot(Q3 o) const { return x * o.x + y * o.y + z * o.z; }
    Q3 cross(Q3 o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
    Q norm() const { return sqrtq(dot(*this)); }
    Q3 unit() const { Q n = norm(); return {x / n, y / n, z / n}; }
};
Q angle(Q3 a, Q3 b) { return atan2q(a.cross(b).norm(), a.dot(b)); }
std::string show(Q3 v) { return "(" + str(double(v.x)) + ", " + str(double(v.y)) + ", " + str(double(v.z)) + ")"; }

// Half the sum over the edges of (length * unit normal): the first moment of the enclosed area.
Q3 moment(std::vector<Q3> const & v) {
    Q3 m;
    for (size_t i = 0; i < v.size(); ++i) {
        Q3 a = v[i].unit(), b = v[(i + 1) % v.size()].unit();
        Q3 n = a.cross(b);
        Q l = n.norm();
        if (l == 0) continue;
        m = m + n * (angle(a, b) / l / 2);
    }
    return m;
}

LD triArea(V3 a, V3 b, V3 c) { return 2 * atan2l(a.dot(b.cross(c)), 1 + a.dot(b) + b.dot(c) + c.dot(a)); }

// The first moment by subdivision: an independent definition.
V3 integrate(V3 a, V3 b, V3 c, int depth) {
    if (depth == 0) return (a + b + c).unit() * triArea(a, b, c);
    V3 p = (a + b).unit(), q = (b + c).unit(), s = (c + a).unit();
    return integrate(a, p, s, depth - 1) + integrate(p, b, q, depth - 1) + integrate(s, q, c, depth - 1) + integrate(p, q, s, depth - 1);
}

LD boxArea(Box const & b) {
    if (b.isEmpty()) return 0;
    LD w = b.getLon().isFull() ? 2 * PIL : LD(b.getLon().getB().asRadians()) - LD(b.getLon().getA().asRadians());
    if (w < 0) w += 2 * PIL;
    LD h = sinl(b.getLat().getB().asRadians()) - sinl(b.getLat().getA().asRadians());
    return w * h;
}

}  // namespace

SECTION(box_area, 60000) {
    Box b;
    switch (c.rng.below(8)) {
        case 0: b = Box::full(); break;
        case 1: b = Box(); break;
        case 2: b = Box(NormalizedAngleInterval::full(), makeBox(c.rng, anyUnit(c.rng), anySize(c.rng)).getLat()); break;
        default: b = makeBox(c.rng, anyUnit(c.rng), anySize(c.rng));
    }
    LD want = boxArea(b), got = b.getArea();
    c.eval(hashRegion(b));
    LD w = b.isEmpty() ? 0 : b.getLon().getSize().asRadians();
    LD tol = w * 6e-16L + want * 4e-15L + 1e-300L + (b.getLon().wraps() ? 3e-15L : 0);  // the size of a wrapping interval is rounded at 2 pi
    c.check(got >= 0 && fabsl(got - want) <= tol, "box-area", [&] { return describe(b) + ": area " + str(double(got)) + ", expected " + str(double(want)); });
    c.count(b.getLon().wraps() ? "wrapping_boxes" : "plain_boxes");
    if (b.isEmpty()) return;
    // Additivity: cut along a meridian and a parallel.
    NormalizedAngle a = b.getLon().getA(), e = b.getLon().getB();
    double f = c.rng.uni();
    bool full = b.getLon().isFull();
    NormalizedAngle m(full ? Angle(c.rng.uni(0, 6.28)) : a + Angle(f * b.getLon().getSize().asRadians()));
    double la = b.getLat().getA().asRadians(), lb = b.getLat().getB().asRadians();
    double n = la + (lb - la) * c.rng.uni();
    if (!full && b.getLon().contains(m) && n >= la && n <= lb) {
        LD sum = 0;
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j)
            sum += Box(i ? NormalizedAngleInterval(m, e) : NormalizedAngleInterval(a, m), j ? AngleInterval(Angle(n), Angle(lb)) : AngleInterval(Angle(la), Angle(n))).getArea();
        c.count("subdivisions");
        c.check(fabsl(sum - got) <= 6e-15L, "box-additive", [&] { return describe(b) + ": area " + str(double(got)) + ", but its four parts add up to " + str(double(sum)); });
    }
    c.sample([&] { return describe(b); });
}

SECTION(circle_area, 40000) {
    UnitVector3d v = anyUnit(c.rng);
    double t = c.rng.chance(.2) ? c.rng.pick({0.0, 1e-300, 1e-17, 1e-9, PI / 2, PI, 4.0, -1.0, 3.14159265}) : c.rng.uni(0, 3.2);
    if (c.rng.chance(.3)) t = c.rng.logUni(1e-20, 3);
    bool chord = c.rng.chance(.3);
    Circle k = chord ? Circle(v, t) : Circle(v, Angle(t));
    LD want;
    if (chord) want = t < 0 ? 0 : PIL * std::min(4.0, t);
    else { LD s = sinl(std::min(LD(t), PIL) / 2); want = t < 0 ? 0 : 4 * PIL * s * s; }
    LD got = k.getArea();
    c.eval(hashRegion(k));
    c.count(k.isEmpty() ? "empty" : k.isFull() ? "full" : "partial");
    c.check(fabsl(got - want) <= 2e-15L * want + 1e-300L, "circle-area", [&] { return "Circle with " + std::string(chord ? "squared chord " : "angle ") + str(t) + ": area " + str(double(got)) + ", expected " + str(double(want)); });
    if (!k.isEmpty() && t > 1e-12) {
        LD sum = got + k.complemented().getArea();
        if (!k.isFull()) c.check(fabsl(sum - 4 * PIL) <= 6e-15L, "circle-complement-area", [&] { return describe(k) + ": areas of the circle and its complement add up to " + str(double(sum)); });
    }
}

SECTION(centroid, 20000) {
    UnitVector3d ctr = anyUnit(c.rng);
    std::vector<UnitVector3d> v;
    LD size = c.rng.chance(.3) ? c.rng.pick({2e-5L, 4.9e-5L, 5.1e-5L, 1e-4L, 1.02e-4L, 1.4L}) : c.rng.logUni(1e-8, 1.4);
    ConvexPolygon p = [&] {
        for (;;) {
            try {
                ConvexPolygon q = makePolygon(c.rng, ctr, double(size));
                return q;
            } catch (std::exception const &) { size = std::min(1.4L, size * 3); }
        }
    }();
    v = p.getVertices();
    std::vector<Q3> q;
    for (auto const & x : v) q.push_back(Q3(x));
    Q3 m = moment(q);
    Q perimeter = 0, extent = 0;
    for (size_t i = 0; i < q.size(); ++i) { perimeter += angle(q[i], q[(i + 1) % q.size()]); for (auto const & x : q) extent = fmaxq(extent, angle(q[i], x)); }
    Q tol = 1e-15L + 3e-15L * perimeter / m.norm();
    if (extent < 2.5e-4L) {
        // Small polygons may be treated as planar, in which areas are computed from rounded differences.
        tol = extent * extent * extent + 4e-16L + 4e-15L * perimeter / m.norm();
    }
    UnitVector3d got = p.getCentroid();
    c.eval(hashRegion(p));
    if (tol > 0.01L) { c.count("ill_conditioned"); return; }
    c.count(extent < 1e-4L ? "small" : "large");
    Q err = angle(Q3(got), m);
    c.check(err <= tol, "centroid", [&] { return describe(p) + ": centroid " + describe(got) + " is off by " + str(double(err)) + " (tolerance " + str(double(tol)) + "); expected " + show(m.unit()); });
    std::vector<V3> vv;
    for (auto const & x : v) vv.push_back(V3(x));
    c.check(marginPolygon(vv, V3(got)) >= -LD(tol), "centroid-outside", [&] { return describe(p) + ": centroid " + describe(got) + " is outside"; });
    if (v.size() == 3) {
        UnitVector3d g2 = ConvexPolygon(v[1], v[2], v[0]).getCentroid();
        c.check(angle(Q3(g2), Q3(got)) <= 2 * tol, "centroid-start", [&] { return describe(p) + ": centroid depends on the starting vertex: " + describe(got) + " and " + describe(g2); });
        c.count("rotated");
    } else if (v.size() == 4) {
        UnitVector3d g2 = ConvexPolygon(v[1], v[2], v[3], v[0]).getCentroid();
        c.check(angle(Q3(g2), Q3(got)) <= 2 * tol, "centroid-start", [&] { return describe(p) + ": centroid depends on the starting vertex"; });
        c.count("rotated");
    }
    c.sample([&] { return describe(p) + " centroid " + describe(got); });
}

SECTION(weighted_centroid, 30000) {
    UnitVector3d a = anyUnit(c.rng), b, d;
    switch (c.rng.below(3)) {
        case 0: b = anyUnit(c.rng); d = anyUnit(c.rng); break;
        case 1: { LD s = c.rng.logUni(1e-7, 1); b = toUnit(offset(c.rng, V3(a), s)); d = toUnit(offset(c.rng, V3(a), s)); break; }
        default: b = toUnit(offset(c.rng, V3(a), c.rng.uni(0, 3.1))); d = toUnit(offset(c.rng, V3(c.rng.chance(.5) ? a : b), c.rng.logUni(1e-4, 1)));
    }
    Q3 qa(a), qb(b), qd(d);
    // Coincident and antipodal vertices do not span a triangle.
    Q minSide = fminq(angle(qa, qb), fminq(angle(qb, qd), angle(qd, qa)));
    Q maxSide = fmaxq(angle(qa, qb), fmaxq(angle(qb, qd), angle(qd, qa)));
    if (minSide < 1e-8L || maxSide > Q(3.1)) { c.count("degenerate"); return; }
    Vector3d got = getWeightedCentroid(a, b, d);
    Q3 want = moment({qa, qb, qd});
    c.eval(hashBytes(&a, 24, hashBytes(&b, 24, hashBytes(&d, 24))));
    Q err = (Q3(got) - want).norm();
    c.check(err <= 2e-15L * (1 + 0.2L / (PIL - LD(maxSide))), "weighted-centroid", [&] { return "of " + describe(a) + ", " + describe(b) + ", " + describe(d) + " is " + toStr(got) + ", expected " + show(want); });
    // By numerical integration, for triangles smaller than a hemisphere.
    if (c.rng.chance(.02) && maxSide < 2) {
        V3 x = V3(a).unit(), y = V3(b).unit(), z = V3(d).unit();
        V3 i5 = integrate(x, y, z, 5), i6 = integrate(x, y, z, 6);
        V3 lim = i6 + (i6 - i5) * (1 / 3.0L);
        LD e = (lim - V3(got)).norm();
        c.count("integrated");
        c.check(e <= 1e-5L, "weighted-centroid-integral", [&] { return "of " + describe(a) + ", " + describe(b) + ", " + describe(d) + " is " + toStr(got) + ", numerical integration gives " + describe(lim); });
    }
}

SECTION(segments, 60000) {
    UnitVector3d a = anyUnit(c.rng), b = c.rng.chance(.5) ? anyUnit(c.rng) : toUnit(offset(c.rng, V3(a), c.rng.logUni(1e-9, 3.1)));
    Vector3d n = a.robustCross(b);
    LD len = angleBetween(V3(a), V3(b));
    if (!(n.getNorm() > 1e-14) || len > 3.1L) { c.count("degenerate"); return; }
    if (c.rng.chance(.5)) n = n / n.getNorm();
    UnitVector3d v;
    V3 N = V3(n).unit();
    switch (c.rng.below(6)) {
        case 0: v = anyUnit(c.rng); break;
        case 1: v = c.rng.chance(.5) ? a : b; if (c.rng.chance(.5)) v = nearUnit(c.rng, v); break;
        case 2: v = toUnit(rotateAround(V3(a).unit(), N, len * c.rng.uni(-0.5, 1.5))); break;
        case 3: v = toUnit(offset(c.rng, rotateAround(V3(a).unit(), N, len * c.rng.uni(-0.5, 1.5)), c.rng.logUni(1e-12, 1))); break;
        case 4: v = toUnit(c.rng.chance(.5) ? N : -N); break;
        default: v = toUnit(-rotateAround(V3(a).unit(), N, len * c.rng.uni(-0.5, 1.5)));
    }
    bool scale = c.rng.chance(.3);
    Vector3d pass = scale ? Vector3d(v) * c.rng.pick({0.5, 4.0, 1024.0}) : Vector3d(v);
    double mn = getMinSquaredChordLength(pass, a, b, n), mx = getMaxSquaredChordLength(pass, a, b, n);
    V3 V = V3(v), A = V3(a).unit(), B = V3(b).unit();
    c.eval(hashBytes(&a, 24, hashBytes(&b, 24, hashBytes(&v, 24))));
    // Definition: the nearest point of the great circle, if it is strictly inside the segment.
    LD s = fabsl(V.dot(N)) / V.norm();
    V3 P = V - N * V.dot(N);
    LD theta = atan2l(s, P.norm());
    auto chord2 = [](LD t) { LD d = sinl(t / 2); return 4 * d * d; };
    auto decide = [&](V3 p) {  // 1 inside, -1 outside, 0 undecided
        LD t = 4e-15L;
        LD ia = N.cross(A).dot(p), ib = N.cross(B).dot(p);
        if (ia > t && ib < -t) return 1;
        if (ia < -t || ib > t) return -1;
        return 0;
    };
    LD tol = 4e-15L;
    if (int k = decide(P)) {
        LD want = k > 0 ? chord2(theta) : 4.0L;
        c.count(k > 0 ? "min_inside" : "min_outside");
        c.check(fabsl(mn - want) <= std::min(tol, 8e-15L * theta + 4e-30L) || fabsl(mn - want) <= 4e-15L * want, "min-chord",
                [&] { return "getMinSquaredChordLength for v " + describe(v) + ", a " + describe(a) + ", b " + describe(b) + " is " + str(mn) + ", expected " + str(double(want)); });
    } else c.count("min_undecided");
    if (int k = decide(-P)) {
        LD want = k > 0 ? chord2(PIL - theta) : 0.0L;
        c.count(k > 0 ? "max_inside" : "max_outside");
        c.check(fabsl(mx - want) <= tol, "max-chord",
                [&] { return "getMaxSquaredChordLength for v " + describe(v) + ", a " + describe(a) + ", b " + describe(b) + " is " + str(mx) + ", expected " + str(double(want)); });
    } else c.count("max_undecided");
    // Together with the end points they bound the distances to all points of the segment, and are attained.
    LD da = chord2(angleBetween(V, A)), db = chord2(angleBetween(V, B));
    LD lo = std::min({LD(mn), da, db}), hi = std::max({LD(mx), da, db});
    LD best = 9, worst = -1;
    for (int i = 0; i <= 24; ++i) {
        LD t = i <= 20 ? len * i / 20 : len * c.rng.uni();
        LD d = chord2(angleBetween(V, rotateAround(A, N, t)));
        best = std::min(best, d);
        worst = std::max(worst, d);
    }
    c.check(lo <= best + 1e-14L && hi >= worst - 1e-14L, "segment-bound", [&] { return "distances from " + describe(v) + " to points of the segment " + describe(a) + ", " + describe(b) + " reach " + str(double(best)) + " and " + str(double(worst)) + ", outside [" + str(double(lo)) + ", " + str(double(hi)) + "]"; });
    LD step = len / 20;
    c.check(sqrtl(best) - sqrtl(std::max(0.0L, lo)) <= step + 1e-9L && sqrtl(hi) - sqrtl(std::max(0.0L, worst)) <= step + 1e-9L, "segment-attained",
            [&] { return "distance bounds [" + str(double(lo)) + ", " + str(double(hi)) + "] from " + describe(v) + " to the segment " + describe(a) + ", " + describe(b) + " are not attained: sampled " + str(double(best)) + " to " + str(double(worst)); });
    c.sample([&] { return describe(v) + " to " + describe(a) + " - " + describe(b); });
}

SECTION(parallels, 60000) {
    auto lat = [&] { return c.rng.chance(.3) ? c.rng.pick({0.0, -0.0, PI / 2, -PI / 2, 1e-20, -1e-20, 1e-9, PI / 4, -PI / 4, 1.0, -1.0}) : c.rng.uni(-PI / 2, PI / 2); };
    double x = lat(), p = c.rng.chance(.2) ? x : lat();
    if (c.rng.chance(.1)) p = -x;
    LD wantMin = fabsl(LD(x) - LD(p)), wantMax = PIL - fabsl(LD(x) + LD(p));
    LD mn = getMinAngleToCircle(Angle(x), Angle(p)).asRadians(), mx = getMaxAngleToCircle(Angle(x), Angle(p)).asRadians();
    c.eval(mix(bits(x)) ^ bits(p));
    c.check(fabsl(mn - wantMin) <= 4e-16L, "min-angle-to-circle", [&] { return "latitude " + str(x) + " to the circle at " + str(p) + ": " + str(double(mn)) + ", expected " + str(double(wantMin)); });
    c.check(fabsl(mx - wantMax) <= 3e-15L, "max-angle-to-circle", [&] { return "latitude " + str(x) + " to the circle at " + str(p) + ": " + str(double(mx)) + ", expected " + str(double(wantMax)); });
    // The closed forms above are those of points sampled on the circle.
    LD best = 9, worst = -1;
    for (int i = 0; i <= 8; ++i) {
        LD d = angleBetween(lonLat(0, x), lonLat(PIL * i / 8, p));
        best = std::min(best, d); worst = std::max(worst, d);
    }
    c.check(fabsl(best - mn) < 1e-9L && fabsl(worst - mx) < 1e-9L, "parallel-attained", [&] { return "latitude " + str(x) + " to the circle at " + str(p) + ": sampled distances reach " + str(double(best)) + " and " + str(double(worst)); });
}
