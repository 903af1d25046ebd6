// C08: membership against the geometric definition, computed in long double from the constructor arguments.
#include "manygon.h"
using namespace vh;

namespace {
void probe(Ctx & c, Spec const & s, int n) {
    Rng & r = c.rng;
    std::uint64_t h = hashBytes(s.desc.data(), s.desc.size());
    int decided = 0, inside = 0;
    for (V3 p : specPoints(r, s, n)) {
        UnitVector3d u = toUnit(p);
        if (r.chance(.05)) u = UnitVector3d(p.x * 1.0, p.y, p.z);
        int k = s.kleene(V3(u));
        bool got = s.region->contains(u);
        if (k == 0) { c.count("too close to call"); continue; }
        ++decided;
        inside += k > 0;
        c.eval(h ^ bits(u.x()) ^ (bits(u.y()) * 3) ^ (bits(u.z()) * 7));
        c.check(got == (k > 0), (std::string("contains:") + kindName(s.kind)).c_str(), [&] {
            return s.desc + "\ncontains(" + describe(u) + ") is " + (got ? "true" : "false") + " at margin " + str(static_cast<double>(s.margin(V3(u))));
        });
        // The other overloads may differ only where rounding decides.
        if (r.chance(.4)) {
            double f = r.pick({1.0, 2.0, 1e-3, 1e10, 1e-160, 1e160, 0.7}) ;
            UnitVector3d w(u.x() * f, u.y() * f, u.z() * f);
            bool g2 = s.region->contains(u.x() * f, u.y() * f, u.z() * f);
            if (s.kleene(V3(w)) == k) c.check(g2 == (k > 0), (std::string("contains-xyz:") + kindName(s.kind)).c_str(), [&] { return s.desc + "\ncontains(x,y,z) differs at " + describe(u) + " scaled by " + str(f); });
            c.count("xyz overload");
            LonLat ll(u);
            UnitVector3d x(ll);
            bool g3 = s.region->contains(ll.getLon().asRadians(), ll.getLat().asRadians());
            if (s.kleene(V3(x)) == k) c.check(g3 == (k > 0), (std::string("contains-lonlat:") + kindName(s.kind)).c_str(), [&] { return s.desc + "\ncontains(lon,lat) differs at " + describe(u); });
            c.count("lonlat overload");
            if (auto b = dynamic_cast<Box const *>(s.region.get())) {
                c.check(b->contains(ll) == (k > 0), "contains-LonLat:Box", [&] { return s.desc + "\ncontains(LonLat) differs at " + describe(u); });
                c.check(b->intersects(ll) == (k > 0) && b->isDisjointFrom(ll) == (k < 0), "intersects-LonLat:Box", [&] { return s.desc + " at " + describe(u); });
            }
        }
        if (auto q = dynamic_cast<Circle const *>(s.region.get()))
            c.check(q->intersects(u) == got && q->isDisjointFrom(u) == !got, "intersects-point:Circle", [&] { return s.desc + " at " + describe(u); });
    }
    c.count(inside == 0 ? "regions probed only outside" : inside == decided ? "regions probed only inside" : "regions probed on both sides");
    c.sample([&] { return s.desc + ": " + std::to_string(decided) + " points decided, " + std::to_string(inside) + " inside"; });
}
}  // namespace

SECTION(circle, 16000) { probe(c, anySpec(c.rng, CIRCLE), 8); }
SECTION(ellipse, 16000) { probe(c, anySpec(c.rng, ELLIPSE), 8); }
SECTION(box, 16000) { probe(c, anySpec(c.rng, BOX), 8); }
SECTION(polygon, 12000) { probe(c, anySpec(c.rng, POLYGON), 8); }
SECTION(compound, 8000) { probe(c, anySpec(c.rng, c.rng.chance(.5) ? UNION : INTERSECTION), 8); }

// The accessors of an ellipse describe the region that contains() implements.
SECTION(ellipse_parameters, 12000) {
    Rng & r = c.rng;
    Spec s = anySpec(r, ELLIPSE);
    auto const * e0 = dynamic_cast<Ellipse const *>(s.region.get());
    if (!e0 || e0->isEmpty() || e0->isFull()) { c.count("empty or full"); return; }
    Ellipse e = *e0;
    bool comp = r.chance(.3);
    if (comp) e.complement();
    std::string desc = s.desc + (comp ? " complemented" : "");
    double al = e.getAlpha().asRadians(), be = e.getBeta().asRadians(), ga = e.getGamma().asRadians();
    c.eval(hashBytes(desc.data(), desc.size()));
    auto params = [&] { return desc + "\nalpha " + str(al) + " beta " + str(be) + " gamma " + str(ga) + " f1 " + describe(e.getF1()) + " f2 " + describe(e.getF2()); };
    c.check(al >= 0 && al < 3.1415926535897936 && be >= 0 && be < 3.1415926535897936 && ga >= 0 && ga <= 1.5707963267948968, "ellipse-parameter-range", params);
    c.check(al <= PI / 2 ? be <= al + 1e-15 : be >= al - 1e-15, "ellipse-axis-order", params);
    if (std::fabs(al - be) != 0 ? std::fabs(al - be) > 1e-15 : std::fabs(al - PI / 2) > 1e-3 && ga == 0) c.check(e.isCircle() == (al == be), "ellipse-isCircle", params);
    if (std::fabs(al - 0.5 * PI) > 1e-15) c.check(!e.isGreatCircle(), "ellipse-isGreatCircle", params);
    V3 f1 = V3(e.getF1()).unit(), f2 = V3(e.getF2()).unit(), ctr = V3(e.getCenter()).unit();
    Matrix3d const & S = e.getTransformMatrix();
    V3 b0 = V3(S(0, 0), S(0, 1), S(0, 2)), b1 = V3(S(1, 0), S(1, 1), S(1, 2)), b2 = V3(S(2, 0), S(2, 1), S(2, 2));
    c.check(fabsl(b0.dot(b1)) < 1e-14L && fabsl(b1.dot(b2)) < 1e-14L && fabsl(b0.dot(b2)) < 1e-14L && fabsl(b0.norm() - 1) < 1e-14L && fabsl(b1.norm() - 1) < 1e-14L && fabsl(b2.norm() - 1) < 1e-14L,
            "ellipse-matrix-orthogonal", params);
    c.check(angleBetween(b2, ctr) < 1e-14L, "ellipse-center", params);
    c.check(fabsl(angleBetween(f1, f2) - 2 * static_cast<LD>(ga)) < 1e-13L, "ellipse-gamma", params);
    c.check(angleBetween((f1 + f2), ctr) < 1e-9L, "ellipse-center-of-foci", params);
    if (fabsl(al - PIL / 2) < 1e-6L) { c.count("hemispheres"); return; }
    // cos alpha = cos beta cos gamma
    c.check(fabsl(cosl(al) - cosl(be) * cosl(ga)) < 1e-14L, "ellipse-axes-and-foci", params);
    int n = 0;
    for (V3 p : specPoints(r, s, 6)) {
        LD m = marginEllipse(f1, f2, al, p);
        LD m0 = s.margin(p);
        if (comp) m0 = -m0;
        if (fabsl(m) < 1e-9L || fabsl(m0) < 1e-9L) continue;
        ++n;
        c.check((m > 0) == (m0 > 0), "ellipse-foci", [&] { return params() + "\nat " + describe(toUnit(p)) + ": margin by the foci returned " + str(static_cast<double>(m)) + ", by the arguments " + str(static_cast<double>(m0)); });
        c.check((m > 0) == e.contains(toUnit(p)), "ellipse-foci-contains", [&] { return params() + "\nat " + describe(toUnit(p)); });
    }
    c.count("points compared", n);
}

// Empty and full regions of every type and origin.
SECTION(extremes, 4000) {
    Rng & r = c.rng;
    std::vector<std::pair<std::string, RegionPtr>> full, empty;
    UnitVector3d u = anyUnit(r), v = anyUnit(r);
    double a = r.uni(0.01, 1.5);
    auto add = [](std::vector<std::pair<std::string, RegionPtr>> & l, char const * n, RegionPtr p) { l.emplace_back(n, std::move(p)); };
    add(full, "Circle::full", Circle::full().clone());
    add(full, "Box::full", Box::full().clone());
    add(full, "Ellipse::full", Ellipse::full().clone());
    add(full, "Circle(4.0)", Circle(u, 4.0).clone());
    add(full, "Circle(PI)", Circle(u, Angle(PI)).clone());
    add(full, "Ellipse(u,PI)", Ellipse(u, Angle(PI)).clone());
    add(full, "Ellipse(u,v,PI)", Ellipse(u, v, Angle(PI)).clone());
    add(full, "Ellipse(u,4,4,0)", Ellipse(u, Angle(3.5), Angle(3.5), Angle(0)).clone());
    add(full, "Ellipse.empty.complement", Ellipse::empty().complemented().clone());
    add(full, "Circle.empty.complement", Circle::empty().complemented().clone());
    add(full, "Circle.dilated", Circle(u, Angle(a)).dilatedBy(Angle(3.2)).clone());
    add(full, "Box.dilated", Box(LonLat(u)).dilatedBy(Angle(7), Angle(4)).clone());
    add(full, "Union with full", std::make_unique<UnionRegion>(Circle(u, Angle(a)), Box::full()));
    add(full, "Union of hemispheres", std::make_unique<UnionRegion>(Circle(u, Angle(1.6)), Circle(-u, Angle(1.6))));
    add(empty, "Circle()", Circle().clone());
    add(empty, "Circle::empty", Circle::empty().clone());
    add(empty, "Circle(-a)", Circle(u, Angle(-a)).clone());
    add(empty, "Circle(-1.0)", Circle(u, -1.0).clone());
    add(empty, "Circle.full.complement", Circle::full().complemented().clone());
    add(empty, "Circle.eroded", Circle(u, Angle(a)).erodedBy(Angle(a + 0.1)).clone());
    add(empty, "Box()", Box().clone());
    add(empty, "Box::empty", Box::empty().clone());
    add(empty, "Box.eroded", Box(LonLat(u), Angle(0.1), Angle(0.1)).erodedBy(Angle(0.2), Angle(0.2)).clone());
    add(empty, "Box lat reversed", Box(NormalizedAngleInterval(Angle(0.1), Angle(0.2)), AngleInterval(Angle(0.3), Angle(0.2))).clone());
    add(empty, "Box lat outside", Box(NormalizedAngleInterval(Angle(0.1), Angle(0.2)), AngleInterval(Angle(2), Angle(3))).clone());
    add(empty, "Ellipse()", Ellipse().clone());
    add(empty, "Ellipse::empty", Ellipse::empty().clone());
    add(empty, "Ellipse.full.complement", Ellipse::full().complemented().clone());
    add(empty, "Ellipse(u,-a)", Ellipse(u, Angle(-a)).clone());
    add(empty, "Ellipse(u,-u,1)", Ellipse(u, -u, Angle(1)).clone());
    add(empty, "Intersection with empty", std::make_unique<IntersectionRegion>(Circle(u, Angle(a)), Circle()));
    add(empty, "Union of empties", std::make_unique<UnionRegion>(Box(), Ellipse()));
    for (int i = 0; i < 8; ++i) {
        UnitVector3d p = i == 0 ? u : i == 1 ? -u : i == 2 ? v : anyUnit(r);
        c.eval(bits(p.x()) ^ bits(p.y()) * 3 ^ bits(p.z()) * 5);
        for (auto const & f : full) c.check(f.second->contains(p), "full-region", [&] { return f.first + " does not contain " + describe(p); });
        for (auto const & f : empty) c.check(!f.second->contains(p), "empty-region", [&] { return f.first + " contains " + describe(p); });
    }
}

// Regular polygons of many vertices.
SECTION(many_vertices, 160) {
    Rng & r = c.rng;
    ManyGon g = manyGon(c);
    for (int i = 0; i < 24; ++i) {
        LD e = r.chance(.5) ? 1e-9L : powl(10, -r.uni(0.5, 9));
        UnitVector3d u = toUnit(sectorPoint(g, anySector(r, g), r.pick({0.0, 0.5, 0.5, 1e-6, r.uni(0, 1)}), r.chance(.5) ? 1 - e : 1 + e));
        LD m = marginPolygon(g.v, V3(u));
        if (fabsl(m) < 1e-13L) { c.count("too close to call"); continue; }
        c.count("points");
        c.check(g.poly->contains(u) == (m > 0), "contains:many-vertices", [&] { return g.desc + " at " + describe(u) + " margin " + str(static_cast<double>(m)); });
    }
}
