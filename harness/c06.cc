// C06: no point may contradict a reported relationship.
#include "manygon.h"
#include "rel.h"
using namespace vh;

namespace {
int kindOf(Region const & a) {
    if (dynamic_cast<Circle const *>(&a)) return CIRCLE;
    if (dynamic_cast<Ellipse const *>(&a)) return ELLIPSE;
    if (dynamic_cast<Box const *>(&a)) return BOX;
    if (dynamic_cast<ConvexPolygon const *>(&a)) return POLYGON;
    return dynamic_cast<UnionRegion const *>(&a) ? UNION : INTERSECTION;
}

void examine(Ctx & c, Region const & a, Region const & b, int n) {
    Pairing p{c, a, b, {}, std::string(kindName(kindOf(a))) + "-" + kindName(kindOf(b))};
    p.pts = testPoints(c.rng, a, n);
    auto q = testPoints(c.rng, b, n);
    p.pts.insert(p.pts.end(), q.begin(), q.end());
    p.pts.erase(std::remove_if(p.pts.begin(), p.pts.end(), [](V3 v) { return !std::isfinite(v.x + v.y + v.z); }), p.pts.end());
    Relationship g = a.relate(b), h = b.relate(a), s = specific(a, b), t = specific(b, a);
    p.relationship(g, "A.relate(B)");
    p.relationship(invert(h), "B.relate(A), inverted,");
    p.relationship(s, "type-specific A.relate(B)");
    p.relationship(invert(t), "type-specific B.relate(A), inverted,");
    c.eval(hashRegion(a) ^ mix(hashRegion(b)));
    c.count("witness evaluations", p.evals);
    if (g == INTERSECTS) c.count("INTERSECTS");
    auto pred = [&](bool v, int w, char const * who) { if (v) p.claim(w, who); };
    if (auto x = dynamic_cast<ConvexPolygon const *>(&a)) {
        pred(x->contains(b), 1, "ConvexPolygon::contains");
        pred(x->isDisjointFrom(b), 0, "ConvexPolygon::isDisjointFrom");
        pred(x->isWithin(b), 2, "ConvexPolygon::isWithin");
        Relationship r = x->relate(b);
        c.check(x->contains(b) == ((r & CONTAINS) != 0) && x->isDisjointFrom(b) == ((r & DISJOINT) != 0) && x->isWithin(b) == ((r & WITHIN) != 0) &&
                x->intersects(b) == !((r & DISJOINT) != 0), "polygon-predicates", [&] { return describe(a) + " " + describe(b); });
    }
    if (auto x = dynamic_cast<Circle const *>(&a)) {
        if (auto y = dynamic_cast<Circle const *>(&b)) {
            pred(x->contains(*y), 1, "Circle::contains");
            pred(x->isDisjointFrom(*y), 0, "Circle::isDisjointFrom");
            pred(x->isWithin(*y), 2, "Circle::isWithin");
            c.check(x->intersects(*y) == !x->isDisjointFrom(*y), "circle-intersects", [&] { return describe(a) + " " + describe(b); });
        }
    }
    if (auto x = dynamic_cast<Box const *>(&a)) {
        if (auto y = dynamic_cast<Box const *>(&b)) {
            pred(x->contains(*y), 1, "Box::contains");
            pred(x->isDisjointFrom(*y), 0, "Box::isDisjointFrom");
            pred(x->isWithin(*y), 2, "Box::isWithin");
            c.check(x->intersects(*y) == !x->isDisjointFrom(*y), "box-intersects", [&] { return describe(a) + " " + describe(b); });
        }
    }
    c.sample([&] { return describe(a) + " vs " + describe(b) + " -> " + rel(g); });
}
}  // namespace

#define PAIRS(name, k1, k2, cases) \
    SECTION(name, cases) { \
        Rng & r = c.rng; \
        auto a = anyRegion(r, k1); \
        RegionPtr b; \
        if (r.chance(.03)) b = a->clone(); else b = relatedRegion(r, *a, k2); \
        if (r.chance(.5)) std::swap(a, b); \
        examine(c, *a, *b, 6); \
    }
PAIRS(circle_circle, CIRCLE, CIRCLE, 12000)
PAIRS(circle_box, CIRCLE, BOX, 12000)
PAIRS(box_circle, BOX, CIRCLE, 12000)
PAIRS(circle_polygon, CIRCLE, POLYGON, 12000)
PAIRS(polygon_circle, POLYGON, CIRCLE, 12000)
PAIRS(circle_ellipse, CIRCLE, ELLIPSE, 8000)
PAIRS(box_box, BOX, BOX, 12000)
PAIRS(box_polygon, BOX, POLYGON, 12000)
PAIRS(polygon_box, POLYGON, BOX, 8000)
PAIRS(box_ellipse, BOX, ELLIPSE, 8000)
PAIRS(polygon_polygon, POLYGON, POLYGON, 16000)
PAIRS(polygon_ellipse, POLYGON, ELLIPSE, 8000)
PAIRS(ellipse_ellipse, ELLIPSE, ELLIPSE, 8000)
PAIRS(ellipse_any, ELLIPSE, c.rng.range(0, 5), 6000)
PAIRS(union_any, UNION, c.rng.range(0, 5), 10000)
PAIRS(intersection_any, INTERSECTION, c.rng.range(0, 5), 10000)

SECTION(any_any, 8000) {
    auto a = anyRegion(c.rng), b = anyRegion(c.rng);
    examine(c, *a, *b, 6);
}

// Points: Box and Circle also relate to them.
SECTION(points, 12000) {
    Rng & r = c.rng;
    Circle a = makeCircle(r, anyUnit(r), anySize(r));
    UnitVector3d u = nearUnit(r, r.chance(.5) ? a.getCenter() : anyUnit(r));
    LD m = margin(a, V3(u)), t = tol(a, V3(u));
    Relationship x = a.relate(u);
    c.eval(hashRegion(a) ^ mix(bits(u.x()) ^ bits(u.y())));
    if (fabsl(m) > t) c.check(x == (m > 0 ? CONTAINS : a.isEmpty() ? (DISJOINT | WITHIN) : DISJOINT), "relate:Circle-point", [&] { return describe(a) + " " + describe(u) + " " + rel(x); });
    Box b = makeBox(r, anyUnit(r), anySize(r));
    LonLat p(u);
    m = margin(b, V3(u)); t = tol(b, V3(u));
    Relationship y = b.relate(p);
    if (fabsl(m) > t) {
        bool bad = m > 0 ? (y & DISJOINT) != 0 : (y & CONTAINS) != 0;
        c.check(!bad, "relate:Box-point", [&] { return describe(b) + " " + describe(u) + " " + rel(y); });
        c.check(!((y & WITHIN) != 0) || b.isEmpty() || b == p, "relate:Box-within-point", [&] { return describe(b) + " " + describe(u) + " " + rel(y); });
    }
}

SECTION(inverse_all, 8) {
    Relationship x(c.index), y = invert(x);
    c.eval(c.index + 1);
    c.check(y.test(0) == x.test(0) && y.test(1) == x.test(2) && y.test(2) == x.test(1), "invert", [&] { return rel(x) + " -> " + rel(y); });
}

// Regular polygons of many vertices against regions around one part of their boundary.
SECTION(many_vertices, 160) {
    Rng & r = c.rng;
    ManyGon g = manyGon(c);
    LD edge = angleBetween(g.v[0], g.v[1]);
    size_t i = anySector(r, g);
    LD f = r.pick({0.5, 0.9, 0.999, 0.99999, 1.0, 1.00001, 1.001, 1.1, 1.5});
    V3 p = sectorPoint(g, i, r.pick({0.0, 0.5, r.uni(0, 1)}), f);
    LD d = fabsl(1 - f) * g.size;
    double size = static_cast<double>(std::min<LD>(1.5L, r.pick({d * 0.9L, d * 0.99L, d * 1.01L, d * 1.1L, edge * 0.3L, edge * 3, g.size * 0.5L})));
    if (!(size > 1e-9)) size = 1e-3;
    RegionPtr b;
    switch (r.range(0, 3)) {
        case 0: b = std::make_unique<Circle>(toUnit(p), Angle(size)); break;
        case 1: b = std::make_unique<Box>(LonLat(toUnit(p)), Angle(size), Angle(size / 2)); break;
        case 2: { std::vector<UnitVector3d> q; for (V3 x : ringAround(r, p, size, r.range(3, 6), false)) q.push_back(toUnit(x)); b = std::make_unique<ConvexPolygon>(q); break; }
        default: b = std::make_unique<Ellipse>(toUnit(p), Angle(size), Angle(size / 3), Angle(r.uni(0, 6))); break;
    }
    examine(c, *g.poly, *b, 3);
    // Witnesses known by construction, for the polygon's own answer.
    Relationship x = g.poly->relate(*b), y = b->relate(*g.poly);
    for (Relationship z : {x, invert(y)}) {
        LD far = angleBetween(p, g.center) - g.size;
        if (far > size * 1.5L + 1e-9L) c.check((z & (CONTAINS | WITHIN)) == 0, "many-vertices:outside", [&] { return g.desc + " and " + describe(*b) + " -> " + rel(z); });
        if (angleBetween(p, g.center) < g.apothem - 1e-12L) c.check((z & DISJOINT) == 0, "many-vertices:center-inside", [&] { return g.desc + " and " + describe(*b) + " -> " + rel(z); });
        if (size * 1.5 < g.apothem) c.check((z & WITHIN) == 0, "many-vertices:within", [&] { return g.desc + " and " + describe(*b) + " -> " + rel(z); });
    }
}
