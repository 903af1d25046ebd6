// C07: bounds contain the region and are proportionate to it.
#include "manygon.h"
using namespace vh;

namespace {
struct Bounds {
    Box box; Box3d box3; Circle circle;
    explicit Bounds(Region const & r) : box(r.getBoundingBox()), box3(r.getBoundingBox3d()), circle(r.getBoundingCircle()) {}
};

LD outside3(Box3d const & b, V3 p) {
    return std::max({b.x().getA() - p.x, p.x - b.x().getB(), b.y().getA() - p.y, p.y - b.y().getB(), b.z().getA() - p.z, p.z - b.z().getB()});
}

LD boundTolerance(Region const & reg, V3 p) {
    auto near = [&](UnitVector3d const & ctr) { return angleBetween(-V3(ctr), p) < 1e-3L ? 1e-7L : 3e-15L; };
    if (auto q = dynamic_cast<CompoundRegion const *>(&reg)) return std::max(boundTolerance(q->getOperand(0), p), boundTolerance(q->getOperand(1), p));
    if (auto q = dynamic_cast<Circle const *>(&reg)) return near(q->getCenter());
    if (auto q = dynamic_cast<Ellipse const *>(&reg)) return near(q->getCenter());
    return 3e-15L;
}

void atPoint(Ctx & c, Region const & reg, Bounds const & b, UnitVector3d const & u, std::string const & kind) {
    if (!reg.contains(u)) return;
    c.count("contained points");
    auto msg = [&] { return describe(reg) + "\nbox " + toStr(b.box) + " circle " + toStr(b.circle) + " box3d " + toStr(b.box3) + "\nat " + describe(u) + " " + toStr(LonLat(u)); };
    c.check(b.box.contains(u), ("box:" + kind).c_str(), msg);
    c.check(b.circle.contains(u), ("circle:" + kind).c_str(), msg);
    // Membership and bounds are computed with rounding; the distance to the
    // antipode of a circle's centre has errors of up to a few 1e-8.
    LD o = outside3(b.box3, V3(u)), t = 3e-15L;
    if (!(o <= t)) {
        t = boundTolerance(reg, V3(u));
        c.check(!b.box3.isEmpty() && o <= t, ("box3d:" + kind).c_str(), msg);
    }
}

// Climbs towards points of the region that are as far outside of a bound as possible.
void climb(Ctx & c, Region const & reg, Bounds const & b, std::vector<V3> const & pts, std::string const & kind) {
    Rng & r = c.rng;
    for (int w = 0; w < 3; ++w) {
        auto f = [&](V3 p) -> LD {
            LD m = margin(reg, p), o;
            if (w == 0) o = b.box.isFull() ? -INFM : -marginBox(b.box, p);
            else if (w == 1) o = -margin(b.circle, p);
            else o = outside3(b.box3, p);
            return std::min(m, o);
        };
        LD best = -1000; V3 p;
        for (V3 q : pts) { LD x = f(q); if (x > best) { best = x; p = q; } }
        if (best < -50) continue;
        LD step = std::min<LD>(0.3L, std::max<LD>(fabsl(best) * 4, 1e-9L));
        for (int k = 0; k < 40 && step > 1e-16L; ++k) {
            bool better = false;
            for (int j = 0; j < 3 && !better; ++j) {
                V3 q = offset(r, p, step * r.uni());
                LD y = f(q);
                if (y > best) { best = y; p = q; better = true; }
            }
            atPoint(c, reg, b, toUnit(p), kind);
            step *= better ? 1.5L : 0.4L;
        }
    }
}

void examine(Ctx & c, Spec const & s) {
    Rng & r = c.rng;
    Region const & reg = *s.region;
    Bounds b(reg);
    std::string kind = kindName(s.kind);
    c.eval(hashBytes(s.desc.data(), s.desc.size()));
    auto pts = specPoints(r, s, 8);
    for (V3 p : pts) {
        UnitVector3d u = toUnit(p);
        atPoint(c, reg, b, u, kind);
        if (r.chance(.3)) atPoint(c, reg, b, UnitVector3d(nudge(r, u.x()), nudge(r, u.y()), nudge(r, u.z())), kind);
    }
    climb(c, reg, b, pts, kind);
    for (UnitVector3d u : {UnitVector3d::Z(), -UnitVector3d::Z(), UnitVector3d::X(), UnitVector3d::Y(), -UnitVector3d::X(), -UnitVector3d::Y()}) atPoint(c, reg, b, u, kind);
    auto leafEmpty = [](Region const & x) {
        if (auto q = dynamic_cast<Circle const *>(&x)) return q->isEmpty();
        if (auto q = dynamic_cast<Ellipse const *>(&x)) return q->isEmpty();
        if (auto q = dynamic_cast<Box const *>(&x)) return q->isEmpty();
        return false;
    };
    auto msg = [&] { return s.desc + "\nbox " + toStr(b.box) + " circle " + toStr(b.circle) + " box3d " + toStr(b.box3); };
    if (leafEmpty(reg)) {
        c.count("empty regions");
        c.check(b.box.isEmpty() && b.box3.isEmpty() && b.circle.isEmpty(), ("empty-bounds:" + kind).c_str(), msg);
    } else if (s.kind < UNION) {
        c.check(!b.box.isEmpty() && !b.box3.isEmpty() && !b.circle.isEmpty(), ("non-empty-bounds:" + kind).c_str(), msg);
    }
    if (s.kind == UNION || s.kind == INTERSECTION) {
        auto q = dynamic_cast<CompoundRegion const *>(&reg);
        bool e0 = leafEmpty(q->getOperand(0)), e1 = leafEmpty(q->getOperand(1));
        if (s.kind == UNION ? (e0 && e1) : (e0 || e1)) {
            c.count("empty compounds");
            c.check(b.box.isEmpty() && b.box3.isEmpty() && b.circle.isEmpty(), ("empty-bounds:" + kind).c_str(), msg);
        }
        return;
    }
    if (leafEmpty(reg)) return;
    // Proportionality, for small regions away from the poles.
    double extent = -1;
    V3 ctr = s.seed;
    if (auto q = dynamic_cast<Circle const *>(&reg)) { extent = 2 * q->getOpeningAngle().asRadians(); ctr = V3(q->getCenter()); }
    if (auto q = dynamic_cast<Ellipse const *>(&reg)) { extent = 2 * std::max(q->getAlpha().asRadians(), q->getBeta().asRadians()); ctr = V3(q->getCenter()); }
    if (auto q = dynamic_cast<Box const *>(&reg)) { extent = std::hypot(q->getWidth().asRadians(), q->getHeight().asRadians()); ctr = V3(UnitVector3d(q->getCenter())); }
    if (auto q = dynamic_cast<ConvexPolygon const *>(&reg)) {
        extent = 0;
        for (auto const & v : q->getVertices()) for (auto const & w : q->getVertices()) extent = std::max(extent, static_cast<double>(angleBetween(v, w)));
    }
    if (!(extent >= 0) || extent > 0.3 || fabsl(latOf(ctr)) > 1.1L) return;
    c.count("proportionality judged");
    double lim = 3 * extent + 4e-7;
    double w = b.box.getWidth().asRadians() * std::cos(std::min(1.5, std::fabs(b.box.getLat().getCenter().asRadians())));
    c.check(b.box.getHeight().asRadians() <= lim && w <= 2 * lim, ("loose-box:" + kind).c_str(), msg);
    c.check(b.circle.getOpeningAngle().asRadians() <= lim && b.circle.getSquaredChordLength() <= lim * lim, ("loose-circle:" + kind).c_str(), msg);
    c.check(b.box3.getWidth() <= lim && b.box3.getHeight() <= lim && b.box3.getDepth() <= lim, ("loose-box3d:" + kind).c_str(), msg);
}
}  // namespace

SECTION(circle, 12000) { examine(c, anySpec(c.rng, CIRCLE)); }
SECTION(ellipse, 12000) { examine(c, anySpec(c.rng, ELLIPSE)); }
SECTION(box, 12000) { examine(c, anySpec(c.rng, BOX)); }
SECTION(polygon, 20000) { examine(c, anySpec(c.rng, POLYGON)); }
SECTION(compound, 8000) { examine(c, anySpec(c.rng, c.rng.chance(.5) ? UNION : INTERSECTION)); }

// Regions of all kinds straddling a pole or longitude zero, or just touching them.
SECTION(poles_and_meridian, 16000) {
    Rng & r = c.rng;
    double size = r.chance(.5) ? r.logUni(1e-9, 1) : r.uni(0.01, 1.5);
    V3 base = r.chance(.6) ? V3(0, 0, r.chance(.5) ? 1 : -1) : lonLat(r.chance(.5) ? 0 : 2 * PIL, r.uni(-1.55, 1.55));
    V3 ctr = offset(r, base, size * r.pick({1.0, 1.0, 0.999999999, 1.000000001, 0.5, 0.9, 1.1, 1.5, 0.0}));
    examine(c, makeSpec(r, r.range(0, 5), toUnit(ctr), size));
}

// Polygons with edges passing exactly or nearly through a pole or along a meridian, the equator or a parallel's top.
SECTION(polygon_edges, 12000) {
    Rng & r = c.rng;
    std::vector<UnitVector3d> pts;
    double lon = r.pick({0.0, PI / 2, PI, 1.0, 5.0, r.uni(0, 6.28)});
    double s = r.chance(.5) ? 1 : -1;
    switch (r.range(0, 4)) {
        case 0: pts = {toUnit(lonLat(lon, s * r.uni(0.2, 1.5))), toUnit(lonLat(lon + PIL, s * r.uni(0.2, 1.5))), toUnit(lonLat(lon + r.uni(0.1, 3.0), s * r.uni(0.1, 1.4)))}; break;
        case 1: pts = {UnitVector3d::fromNormalized(0, 0, s), toUnit(lonLat(lon, s * r.uni(-0.5, 1.5))), toUnit(lonLat(lon + r.uni(0.001, 3.1), s * r.uni(-.5, 1.5)))}; break;
        case 2: pts = {toUnit(lonLat(lon, 0)), toUnit(lonLat(lon + r.uni(0.01, 3.1), 0)), toUnit(lonLat(lon + r.uni(0, 3.1), r.uni(-1.5, 1.5)))}; break;
        case 3: { double la = r.uni(-1.5, 1.5), w = r.uni(0.01, 3); pts = {toUnit(lonLat(lon, la)), toUnit(lonLat(lon + w, la)), toUnit(lonLat(lon + w / 2, la - s * r.logUni(1e-6, .5)))}; break; }
        default: { double t = r.logUni(1e-12, 0.1); pts = {toUnit(lonLat(lon, s * (PIL / 2 - t))), toUnit(lonLat(lon + PIL + r.uni(-1, 1) * t, s * r.uni(0, 1.5))), toUnit(lonLat(lon + r.uni(0.2, 2.9), s * r.uni(0, 1.5)))}; break; }
    }
    Spec sp;
    try { sp.region = std::make_unique<ConvexPolygon>(pts); } catch (std::invalid_argument const &) { return; }
    auto const & vs = static_cast<ConvexPolygon const &>(*sp.region).getVertices();
    std::vector<V3> v(vs.begin(), vs.end());
    V3 m;
    for (V3 x : v) m = m + x;
    sp.kind = POLYGON; sp.seed = m.unit(); sp.desc = describe(*sp.region);
    sp.margin = [v](V3 p) { return marginPolygon(v, p); };
    sp.tolerance = [](V3) { return 1e-17L; };
    finish(sp);
    examine(c, sp);
}

// Regular polygons of many vertices.
SECTION(many_vertices, 120) {
    Rng & r = c.rng;
    ManyGon g = manyGon(c);
    Spec sp;
    std::vector<V3> v = g.v;
    sp.region = g.poly->clone();
    Bounds b(*sp.region);
    for (int i = 0; i < 60; ++i) {
        V3 p = sectorPoint(g, anySector(r, g), r.pick({0.0, 0.5, r.uni(0, 1)}), r.chance(.3) ? r.uni(0, 1) : 1 - 1e-12L);
        atPoint(c, *sp.region, b, toUnit(p), "many-vertices");
    }
    LD lim = 2 * g.size + 1e-6L;
    c.check(b.circle.getOpeningAngle().asRadians() <= lim && b.box3.getWidth() <= lim && b.box3.getHeight() <= lim && b.box3.getDepth() <= lim && b.box.getHeight().asRadians() <= lim, "loose:many-vertices",
            [&] { return g.desc + "\nbox " + toStr(b.box) + " circle " + toStr(b.circle) + " box3d " + toStr(b.box3); });
}
