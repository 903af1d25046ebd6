// Regions together with an independent description of the point set they were
// asked to represent, computed in long double from the constructor arguments.
#pragma once
#include "gen.h"

namespace vh {

struct Spec {
    RegionPtr region;
    int kind = 0;
    std::string desc;
    std::function<LD(V3)> margin;    // positive inside; bounds the distance to the boundary from below
    std::function<LD(V3)> tolerance; // rounding tolerance at a point
    std::function<int(V3)> kleene;   // +1 inside, -1 outside, 0 too close to the boundary to tell
    V3 seed{0, 0, 1};                // a point likely to be inside
};

inline LD circleTolerance(V3 center, V3 p) {
    LD d = angleBetween(center, p);
    if (d <= PIL / 2) return 2e-15L;
    return 2e-15L + 4e-15L / std::max(sinl(d), 1e-7L);
}

inline void finish(Spec & s) {
    auto m = s.margin;
    auto t = s.tolerance;
    s.kleene = [m, t](V3 p) { LD x = m(p); return x > t(p) ? 1 : (x < -t(p) ? -1 : 0); };
}

inline Spec circleSpec(Rng & r, UnitVector3d const & center, double size) {
    Spec s;
    s.kind = CIRCLE;
    V3 c(center);
    s.seed = c;
    LD angle = size;
    switch (r.range(0, 11)) {
        case 0: s.region = std::make_unique<Circle>(Circle::empty()); angle = -1; s.desc = "Circle::empty()"; break;
        case 1: s.region = std::make_unique<Circle>(Circle::full()); angle = 4; s.desc = "Circle::full()"; break;
        case 2: s.region = std::make_unique<Circle>(center); angle = 0; s.desc = "Circle(" + describe(center) + ")"; break;
        case 3: case 4: {
            double cl2 = 4 * std::pow(std::sin(size / 2), 2);
            if (r.chance(.1)) cl2 = r.pick({4.0, 5.0, -1.0, -1e-300, 0.0, 2.0, 4.0 - 1e-12});
            angle = cl2 < 0 ? -1 : (cl2 >= 4 ? 4 : 2 * asinl(sqrtl(cl2) / 2));
            s.region = std::make_unique<Circle>(center, cl2);
            s.desc = "Circle(" + describe(center) + ", cl2=" + str(cl2) + ")";
            break;
        }
        case 5: {
            double a = r.pick({-1e-12, -1.0, -4.0, 3.2, 4.0, 7.0, 100.0, PI});
            angle = a;
            s.region = std::make_unique<Circle>(center, Angle(a));
            s.desc = "Circle(" + describe(center) + ", " + str(a) + ")";
            break;
        }
        default:
            s.region = std::make_unique<Circle>(center, Angle(size));
            s.desc = "Circle(" + describe(center) + ", " + str(size) + ")";
    }
    s.margin = [c, angle](V3 p) { return marginCircle(c, angle >= PIL ? 4 : angle, p); };
    if (angle >= 3.141592653589793L) s.margin = [](V3) { return INFM; };
    s.tolerance = [c](V3 p) { return circleTolerance(c, p); };
    finish(s);
    return s;
}

inline Spec ellipseSpec(Rng & r, UnitVector3d const & center, double size) {
    Spec s;
    s.kind = ELLIPSE;
    V3 c = V3(center).unit(), f1 = c, f2 = c;
    s.seed = c;
    LD alpha = size;
    bool flip = false;
    switch (r.range(0, 9)) {
        case 0: s.region = std::make_unique<Ellipse>(Ellipse::empty()); alpha = -10; s.desc = "Ellipse::empty()"; break;
        case 1: s.region = std::make_unique<Ellipse>(Ellipse::full()); alpha = 10; s.desc = "Ellipse::full()"; break;
        case 2: s.region = std::make_unique<Ellipse>(center, Angle(size)); s.desc = "Ellipse(" + describe(center) + ", " + str(size) + ")"; break;
        case 3: s.region = std::make_unique<Ellipse>(Circle(center, Angle(size))); s.desc = "Ellipse(Circle(" + describe(center) + ", " + str(size) + "))"; break;
        case 4: case 5: case 6: {
            double d = r.chance(.3) ? r.logUni(1e-16, 1e-3) : size * r.pick({1.0, 0.999999, 0.5, 1e-3, 1.01, 1.9}) * r.uni();
            UnitVector3d f = toUnit(offset(r, c, d));
            f1 = V3(center); f2 = V3(f);
            s.region = std::make_unique<Ellipse>(center, f, Angle(size));
            s.desc = "Ellipse(" + describe(center) + ", " + describe(f) + ", " + str(size) + ")";
            s.seed = (V3(center) + V3(f)).unit();
            break;
        }
        default: {
            double b = size * r.pick({1.0, 0.999, 0.5, 0.1, 1e-3});
            if (size > PI / 2) b = PI - (PI - size) * r.pick({1.0, 0.999, 0.5, 0.1});
            if (size == PI / 2) b = size;
            double a = size;
            if (r.chance(.4)) std::swap(a, b);
            double o = r.chance(.3) ? r.range(-8, 8) * PI / 4 : r.uni(-7, 7);
            s.region = std::make_unique<Ellipse>(center, Angle(a), Angle(b), Angle(o));
            s.desc = "Ellipse(" + describe(center) + ", " + str(a) + ", " + str(b) + ", " + str(o) + ")";
            LD A = a, B = b, O = o;
            // The foci lie on the axis with the larger angle, or the smaller one for ellipses larger than a hemisphere.
            if ((A < PIL / 2 && A < B) || (A > PIL / 2 && A > B)) { std::swap(A, B); O += PIL / 2; }
            alpha = A;
            LD g = atan2l(sqrtl(std::max<LD>(0, sinl(A - B) * sinl(A + B))), fabsl(cosl(A)));
            if (a == b) g = 0;
            // north, or +x at the poles (the documented convention of northFrom)
            UnitVector3d nn = UnitVector3d::northFrom(center);
            V3 north = rotateAround(V3(nn), c, -O);
            north = (north - c * north.dot(c)).unit();
            f1 = c * cosl(g) + north * sinl(g);
            f2 = c * cosl(g) - north * sinl(g);
            if (PIL - A < 1e-15L && PIL - B < 1e-15L) alpha = 10;
        }
    }
    (void)flip;
    LD g2 = angleBetween(f1, f2);
    if (alpha < -1 || alpha > 5) { LD v = alpha > 0 ? INFM : -INFM; s.margin = [v](V3) { return v; }; s.tolerance = [](V3) { return 1; }; finish(s); return s; }
    // Near the empty/full limits the representable set is decided by rounding.
    LD slack = 4e-15L;
    if (2 * alpha < g2 - slack) s.margin = [](V3) { return -INFM; };
    else if (2 * PIL - 2 * alpha < g2 - slack) s.margin = [](V3) { return INFM; };
    else s.margin = [f1, f2, alpha](V3 p) { return marginEllipse(f1, f2, alpha, p); };
    s.tolerance = [](V3) { return 1e-14L; };
    finish(s);
    return s;
}

inline Spec boxSpec(Rng & r, UnitVector3d const & center, double size) {
    Spec s;
    s.kind = BOX;
    s.seed = V3(center).unit();
    LonLat ll(center);
    double lon = ll.getLon().asRadians(), lat = ll.getLat().asRadians();
    double h = size * r.pick({1.0, 1.0, 0.3, 0.01, 0.0});
    double w = size / std::max(1e-3, std::cos(lat)) * r.pick({1.0, 1.0, 0.1, 0.0});
    LD la = lon, lb = lon, ta = lat, tb = lat;
    bool full = false, empty = false;
    auto width = [&](LD x) { la = static_cast<LD>(lon) - x; lb = static_cast<LD>(lon) + x; full = x >= 3.141592653589793L; empty = x < 0; };
    switch (r.range(0, 12)) {
        case 0: s.region = std::make_unique<Box>(Box::empty()); empty = true; break;
        case 1: s.region = std::make_unique<Box>(Box::full()); full = true; ta = -PIL; tb = PIL; break;
        case 2: s.region = std::make_unique<Box>(ll); break;
        case 3:
            s.region = std::make_unique<Box>(Box::allLongitudes(), AngleInterval(Angle(lat) - Angle(h), Angle(lat) + Angle(h)));
            full = true; ta = static_cast<LD>(lat) - h; tb = static_cast<LD>(lat) + h;
            break;
        case 4:
            if (w > 3.1) w = 3.1;
            s.region = std::make_unique<Box>(NormalizedAngleInterval(ll.getLon(), ll.getLon() + Angle(w)), Box::allLatitudes());
            lb = la + w; ta = -PIL; tb = PIL;
            break;
        case 5: {
            LonLat q(anyUnit(r));
            s.region = std::make_unique<Box>(ll, q);
            lb = q.getLon().asRadians();
            tb = q.getLat().asRadians();
            empty = tb < ta;
            break;
        }
        case 6: {
            // degrees and whole eighths of the circle
            int i = r.range(-8, 8), j = i + r.range(0, 7), k = r.range(-2, 2), l = r.range(k, 2);
            s.region = std::make_unique<Box>(Box::fromDegrees(i * 45.0, k * 45.0, j * 45.0, l * 45.0));
            la = i * PIL / 4; lb = j * PIL / 4; ta = k * PIL / 4; tb = l * PIL / 4;
            break;
        }
        case 7: {
            // raw longitudes in any order; the arguments may exceed [0, 2 pi]
            double a = r.uni(0, 2 * PI), b = r.uni(0, 2 * PI);
            if (r.chance(.3)) b = std::min(2 * PI, std::max(0.0, a + (r.chance(.5) ? -1 : 1) * r.logUni(1e-12, 1)));
            s.region = std::make_unique<Box>(NormalizedAngleInterval(NormalizedAngle(a), NormalizedAngle(b)), AngleInterval(Angle(lat - h), Angle(lat + h)));
            la = a; lb = b; if (lb < la) lb += 2 * PIL;
            ta = lat - h; tb = lat + h;
            break;
        }
        default:
            if (r.chance(.1)) { w = r.pick({-0.1, -1e-9, 4.0, PI, 0.2}); h = r.pick({-0.1, -1e-9, 2.0, 4.0, 0.1}); }
            else if (w > 3.1) w = 3.3;
            s.region = std::make_unique<Box>(ll, Angle(w), Angle(h));
            width(w);
            ta = static_cast<LD>(lat) - h; tb = static_cast<LD>(lat) + h;
            if (h < 0) empty = true;
    }
    s.desc = describe(*s.region);
    LD a = fmodl(la, 2 * PIL), b = fmodl(lb, 2 * PIL);
    if (a < 0) a += 2 * PIL;
    if (b < 0) b += 2 * PIL;
    // A box with a zero-width longitude interval holds at most its meridian.
    bool point = !full && la == lb;
    if (empty) s.margin = [](V3) { return -INFM; };
    else s.margin = [=](V3 p) {
        LD m = marginBoxParams(a, b, full, ta, tb, p);
        if (point && m > 0) m = 0;
        return m;
    };
    s.tolerance = [](V3) { return 6e-15L; };
    if (!empty) {
        LD mid = full ? static_cast<LD>(lon) : (la + (lb < la ? lb + 2 * PIL : lb)) / 2;
        s.seed = lonLat(mid, (std::max(ta, -PIL / 2) + std::min(tb, PIL / 2)) / 2);
    }
    finish(s);
    return s;
}

inline Spec polygonSpec(Rng & r, UnitVector3d const & center, double size) {
    Spec s;
    s.kind = POLYGON;
    std::vector<V3> v;
    for (int attempt = 0;; ++attempt) {
        try {
            auto p = std::make_unique<ConvexPolygon>(makePolygon(r, center, std::max(size, 1e-9)));
            v.assign(p->getVertices().begin(), p->getVertices().end());
            if (v.size() == 3 && r.chance(.5)) p = std::make_unique<ConvexPolygon>(p->getVertices()[1], p->getVertices()[2], p->getVertices()[0]);
            else if (v.size() == 4 && r.chance(.5)) p = std::make_unique<ConvexPolygon>(p->getVertices()[3], p->getVertices()[0], p->getVertices()[1], p->getVertices()[2]);
            s.region = std::move(p);
            break;
        } catch (std::invalid_argument const &) {
            size = std::min(1.5, std::max(1e-7, size * 2));
            if (attempt > 30) size = 0.5;
        }
    }
    s.desc = describe(*s.region);
    V3 m;
    for (V3 x : v) m = m + x;
    s.seed = m.unit();
    s.margin = [v](V3 p) { return marginPolygon(v, p); };
    s.tolerance = [](V3) { return 4e-18L; };
    finish(s);
    return s;
}

inline Spec leafSpec(Rng & r, int kind, UnitVector3d const & center, double size) {
    switch (kind) {
        case CIRCLE: return circleSpec(r, center, size);
        case ELLIPSE: return ellipseSpec(r, center, size);
        case BOX: return boxSpec(r, center, size);
        default: return polygonSpec(r, center, size);
    }
}

inline Spec makeSpec(Rng & r, int kind, UnitVector3d const & center, double size, int depth = 0) {
    if (kind < UNION) return leafSpec(r, kind, center, size);
    int last = depth >= 2 ? POLYGON : INTERSECTION;
    UnitVector3d c2 = r.chance(.5) ? center : toUnit(offset(r, V3(center), std::min(3.0, size * r.uni(0, 3))));
    Spec a = makeSpec(r, r.range(0, last), center, size, depth + 1);
    Spec b = makeSpec(r, r.range(0, last), c2, std::min(3.1, size * r.logUni(0.1, 3)), depth + 1);
    Spec s;
    s.kind = kind;
    auto am = a.margin, bm = b.margin, at = a.tolerance, bt = b.tolerance;
    auto ak = a.kleene, bk = b.kleene;
    if (kind == UNION) {
        s.region = std::make_unique<UnionRegion>(*a.region, *b.region);
        s.margin = [=](V3 p) { return std::max(am(p), bm(p)); };
        s.kleene = [=](V3 p) { return std::max(ak(p), bk(p)); };
    } else {
        s.region = std::make_unique<IntersectionRegion>(*a.region, *b.region);
        s.margin = [=](V3 p) { return std::min(am(p), bm(p)); };
        s.kleene = [=](V3 p) { return std::min(ak(p), bk(p)); };
    }
    s.tolerance = [=](V3 p) { return std::max(at(p), bt(p)); };
    s.desc = std::string(kind == UNION ? "Union(" : "Intersection(") + a.desc + ", " + b.desc + ")";
    s.seed = a.seed;
    return s;
}

inline Spec anySpec(Rng & r, int kind = -1) {
    if (kind < 0) kind = r.range(0, NKINDS - 1);
    return makeSpec(r, kind, anyUnit(r), anySize(r));
}

// A point on the boundary, found by bisection between an inside and an outside point; false if none was found.
inline bool boundaryPoint(Rng & r, Spec const & s, V3 & out) {
    V3 in = s.seed, ex = -s.seed;
    if (!(s.margin(in) > 0)) {
        bool found = false;
        for (int i = 0; i < 10 && !found; ++i) { in = V3(anyUnit(r)).unit(); found = s.margin(in) > 0; }
        if (!found) return false;
    }
    bool found = false;
    for (int i = 0; i < 12 && !found; ++i) {
        ex = i < 6 ? offset(r, in, r.pick({1.0L, 1e-3L, 1e-6L, 2.5L, 0.1L})) : V3(anyUnit(r)).unit();
        found = s.margin(ex) < 0;
    }
    if (!found) return false;
    for (int i = 0; i < 90; ++i) {
        V3 m = in + ex;
        if (!(m.norm() > 1e-6L)) return false;
        m = m.unit();
        if (s.margin(m) > 0) in = m; else ex = m;
    }
    out = in;
    return true;
}

inline std::vector<V3> specPoints(Rng & r, Spec const & s, int n) {
    std::vector<V3> p = testPoints(r, *s.region, n);
    for (int i = 0; i < n; ++i) {
        V3 b;
        if (!boundaryPoint(r, s, b)) { if (i > 1) break; continue; }
        p.push_back(b);
        p.push_back(offset(r, b, r.logUni(1e-16, 1e-2)));
        p.push_back(offset(r, b, r.logUni(1e-16, 1e-12)));
    }
    p.push_back(s.seed);
    p.push_back(-s.seed);
    return p;
}

}  // namespace vh
