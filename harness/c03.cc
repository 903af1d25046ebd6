// C03: encoding round trips exactly, and the byte layout is the documented one.
#include "codecgen.h"
#include "golden.h"
using namespace vh;

namespace {
// The documented layout, written independently of the library's encoder.
bool layout(Region const & g, Bytes const & e, size_t & at) {
    auto f64 = [&](double want) { bool ok = at + 8 <= e.size() && getU64(e, at) == bits(want); at += 8; return ok; };
    auto type = [&](char t) { bool ok = at < e.size() && e[at] == static_cast<std::uint8_t>(t); ++at; return ok; };
    if (auto x = dynamic_cast<Box const *>(&g))
        return type('b') && f64(x->getLon().getA().asRadians()) && f64(x->getLon().getB().asRadians()) && f64(x->getLat().getA().asRadians()) && f64(x->getLat().getB().asRadians());
    if (auto x = dynamic_cast<Circle const *>(&g))
        return type('c') && f64(x->getCenter().x()) && f64(x->getCenter().y()) && f64(x->getCenter().z()) && f64(x->getSquaredChordLength()) && f64(x->getOpeningAngle().asRadians());
    if (auto x = dynamic_cast<Ellipse const *>(&g)) {
        if (!type('e')) return false;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!f64(x->getTransformMatrix()(i, j))) return false;
        if (at + 40 > e.size()) return false;
        double a = getF64(e, at), b = getF64(e, at + 8), ta = getF64(e, at + 24), tb = getF64(e, at + 32);
        bool ok = bits(0.5 * PI + a) == bits(x->getAlpha().asRadians()) && bits(0.5 * PI + b) == bits(x->getBeta().asRadians());
        at += 16;
        ok = f64(x->getGamma().asRadians()) && ok;
        at += 16;
        // the last two fields are |tan| of the first two
        auto near = [](double t, double v) { double w = std::fabs(std::tan(v)); return !(std::fabs(v) < 1.57) || std::fabs(t - w) <= 1e-14 * w + 1e-300; };
        return ok && (x->isEmpty() || x->isFull() || (near(ta, a) && near(tb, b)));
    }
    if (auto x = dynamic_cast<ConvexPolygon const *>(&g)) {
        if (!type('p')) return false;
        for (auto const & v : x->getVertices()) if (!f64(v.x()) || !f64(v.y()) || !f64(v.z())) return false;
        return true;
    }
    auto x = dynamic_cast<CompoundRegion const *>(&g);
    if (!x || !type(dynamic_cast<UnionRegion const *>(&g) ? 'u' : 'i')) return false;
    for (size_t k = 0; k < 2; ++k) {
        if (at + 8 > e.size()) return false;
        std::uint64_t n = getU64(e, at);
        at += 8;
        size_t start = at;
        if (!layout(x->getOperand(k), e, at) || at - start != n) return false;
    }
    return true;
}

bool same(Region const & a, Region const & b) {
    if (typeid(a) != typeid(b)) return false;
    if (auto x = dynamic_cast<Box const *>(&a)) return *x == dynamic_cast<Box const &>(b);
    if (auto x = dynamic_cast<Circle const *>(&a)) return *x == dynamic_cast<Circle const &>(b);
    if (auto x = dynamic_cast<Ellipse const *>(&a)) return *x == dynamic_cast<Ellipse const &>(b);
    if (auto x = dynamic_cast<ConvexPolygon const *>(&a)) return *x == dynamic_cast<ConvexPolygon const &>(b);
    auto x = dynamic_cast<CompoundRegion const *>(&a), y = dynamic_cast<CompoundRegion const *>(&b);
    return same(x->getOperand(0), y->getOperand(0)) && same(x->getOperand(1), y->getOperand(1));
}

Bytes bytesOf(Box const & b) { Bytes o; for (double d : {b.getLon().getA().asRadians(), b.getLon().getB().asRadians(), b.getLat().getA().asRadians(), b.getLat().getB().asRadians()}) putF64(o, d); return o; }
Bytes bytesOf(Box3d const & b) { Bytes o; for (Interval1d i : {b.x(), b.y(), b.z()}) { putF64(o, i.getA()); putF64(o, i.getB()); } return o; }

void behaves(Ctx & c, Region const & g, Region const & d, std::string const & desc) {
    auto msg = [&] { return desc; };
    c.check(same(g, d), "equality", msg);
    for (V3 p : testPoints(c.rng, g, 4)) { UnitVector3d u = toUnit(p); c.check(g.contains(u) == d.contains(u), "contains-differs", msg); }
    c.check(bytesOf(g.getBoundingBox()) == bytesOf(d.getBoundingBox()), "bounding-box-differs", msg);
    c.check(bytesOf(g.getBoundingBox3d()) == bytesOf(d.getBoundingBox3d()), "bounding-box-3d-differs", msg);
    c.check(g.getBoundingCircle().encode() == d.getBoundingCircle().encode(), "bounding-circle-differs", msg);
    RegionPtr o = relatedRegion(c.rng, g, c.rng.range(0, NKINDS - 1));
    c.check(g.relate(*o) == d.relate(*o) && o->relate(g) == o->relate(d), "relate-differs", msg);
    c.check(toStr(g.clone()->encode().size()) == toStr(d.encode().size()), "clone-differs", msg);
}

void roundTrip(Ctx & c, Region const & g) {
    Bytes e = g.encode();
    std::string desc = describe(g).substr(0, 1500);
    c.eval(hashBytes(e.data(), e.size()));
    size_t at = 0;
    bool ok = layout(g, e, at) && at == e.size();
    c.check(ok, "layout", [&] { return desc + " encodes to " + hexOf(e); });
    RegionPtr d = Region::decode(e);
    c.check(typeid(*d) == typeid(g), "type", [&] { return desc; });
    Bytes e2 = d->encode();
    c.check(e2 == e, "re-encoding", [&] { return desc + ": " + hexOf(e) + " became " + hexOf(e2); });
    RegionPtr t;
    switch (e[0]) {
        case 'b': t = Box::decode(e); break;
        case 'c': t = Circle::decode(e); break;
        case 'e': t = Ellipse::decode(e); break;
        case 'p': t = ConvexPolygon::decode(e); break;
        case 'u': t = UnionRegion::decode(e.data(), e.size()); break;
        default: t = IntersectionRegion::decode(e); break;
    }
    c.check(t->encode() == e && typeid(*t) == typeid(g), "specific-decoder", [&] { return desc; });
    if (auto x = dynamic_cast<CompoundRegion const *>(&g)) {
        auto y = CompoundRegion::decode(e);
        c.check(y->encode() == e && typeid(*y) == typeid(*x), "compound-decoder", [&] { return desc; });
    }
    behaves(c, g, *d, desc);
}
}  // namespace

SECTION(round_trip, 40000) { roundTrip(c, *codecRegion(c.rng)); }

SECTION(degenerate, 20000) {
    Rng & r = c.rng;
    RegionPtr g;
    switch (r.range(0, 7)) {
        case 0: g = std::make_unique<Circle>(anyUnit(r), r.pick({-1.0, -0.0, 0.0, 5e-324, 4.0, 5.0, 3.9999999999999996})); break;
        case 1: g = std::make_unique<Circle>(anyUnit(r), Angle(r.pick({-1.0, -0.0, 0.0, 1e-300, 5e-324, PI, 4.0, 100.0, r.uni(-1, 4)}))); break;
        case 2: g = std::make_unique<Box>(NormalizedAngleInterval(NormalizedAngle(r.uni(0, 2 * PI)), NormalizedAngle(r.pick({0.0, 2 * PI, r.uni(0, 2 * PI)}))), AngleInterval(Angle(r.uni(-2, 2)), Angle(r.uni(-2, 2)))); break;
        case 3: g = std::make_unique<Box>(LonLat::fromRadians(r.pick({0.0, PI, 2 * PI, -0.0}), r.pick({-PI / 2, PI / 2, 0.0, -0.0, 5e-324})), Angle(r.uni(-1, 4)), Angle(r.uni(-1, 2))); break;
        case 4: g = std::make_unique<Ellipse>(anyUnit(r), Angle(r.pick({-1.0, 0.0, 1e-300, PI / 2, PI, 4.0}))); break;
        case 5: { double a = r.uni(0, PI / 2), b = r.uni(0, PI / 2); if (r.chance(.5)) { a = PI - a; b = PI - b; } Ellipse e(anyUnit(r), Angle(a), Angle(b), Angle(r.uni(-9, 9))); if (r.chance(.5)) e.complement(); g = e.clone(); break; }
        case 6: g = std::make_unique<Ellipse>(r.chance(.5) ? Ellipse::empty() : Ellipse::full()); break;
        default: {
            // denormal and negative zero components
            std::vector<UnitVector3d> p{UnitVector3d::fromNormalized(1, tiny(r), tiny(r)), UnitVector3d::fromNormalized(tiny(r), 1, tiny(r)), UnitVector3d::fromNormalized(tiny(r), -0.0, 1)};
            g = std::make_unique<ConvexPolygon>(p[0], p[1], p[2]);
        }
    }
    roundTrip(c, *g);
}

SECTION(deep, 60) {
    Rng & r = c.rng;
    int n = r.range(50, 300);
    RegionPtr p = anyRegion(r, r.range(0, 3));
    for (int i = 0; i < n; ++i) {
        // the constructor from an array avoids quadratic copying
        std::array<RegionPtr, 2> ops{{std::move(p), anyRegion(r, r.range(0, 3))}};
        if (r.chance(.5)) std::swap(ops[0], ops[1]);
        if (r.chance(.5)) p = std::make_unique<UnionRegion>(std::move(ops)); else p = std::make_unique<IntersectionRegion>(std::move(ops));
    }
    Bytes e = p->encode();
    c.eval(hashBytes(e.data(), e.size()));
    RegionPtr d = Region::decode(e);
    c.check(d->encode() == e, "deep", [&] { return std::to_string(n) + " levels"; });
    for (int i = 0; i < 20; ++i) { UnitVector3d v = anyUnit(r); c.check(p->contains(v) == d->contains(v), "deep-contains", [&] { return std::to_string(n) + " levels"; }); }
}

// Polygons of many vertices, and compounds whose operands have long encodings.
SECTION(large, 48) {
    Rng & r = c.rng;
    auto polygon = [&](int n) -> RegionPtr {
        // The vertices are those of a regular polygon. Decoding is used to
        // make it, since finding the hull takes quadratic time.
        double size = r.uni(.3, 1.3), o = r.uni(0, 7);
        Bytes b{'p'};
        for (int i = 0; i < n; ++i) { UnitVector3d v(Angle(o + i * 2 * PI / n), Angle(0.5 * PI - size)); putF64(b, v.x()); putF64(b, v.y()); putF64(b, v.z()); }
        return Region::decode(b);
    };
    auto number = [&] { return c.index < 6 ? 2729 + static_cast<int>(c.index) : static_cast<int>(r.logUni(100, r.chance(.2) ? 40000 : 6000)); };
    RegionPtr g = polygon(number());
    int levels = r.range(0, 3);
    for (int i = 0; i < levels; ++i) {
        std::array<RegionPtr, 2> ops{{std::move(g), r.chance(.4) ? polygon(number()) : anyRegion(r, r.range(0, 3))}};
        if (r.chance(.5)) std::swap(ops[0], ops[1]);
        if (r.chance(.5)) g = std::make_unique<UnionRegion>(std::move(ops)); else g = std::make_unique<IntersectionRegion>(std::move(ops));
    }
    Bytes e = g->encode();
    c.eval(hashBytes(e.data(), e.size()));
    auto msg = [&] { return std::to_string(levels) + " levels, " + std::to_string(e.size()) + " bytes"; };
    size_t at = 0;
    c.check(layout(*g, e, at) && at == e.size(), "large-layout", msg);
    RegionPtr d;
    try { d = Region::decode(e); } catch (std::exception const & x) { c.fail("large-decode", msg() + ": " + x.what()); return; }
    c.check(d->encode() == e && same(*g, *d), "large-round-trip", msg);
    c.count("bytes of long encodings", e.size());
}

// Strings persisted by an earlier build.
SECTION(golden_all, NGOLDEN) {
    char const * h = GOLDEN[c.index];
    Bytes b;
    for (size_t i = 0; h[i]; i += 2) { unsigned x; std::sscanf(h + i, "%2x", &x); b.push_back(static_cast<std::uint8_t>(x)); }
    c.eval(hashBytes(b.data(), b.size()));
    RegionPtr g = Region::decode(b);
    size_t at = 0;
    c.check(layout(*g, b, at) && at == b.size(), "golden-layout", [&] { return hexOf(b) + " decodes to " + describe(*g); });
    c.check(g->encode() == b, "golden-re-encoding", [&] { return hexOf(b) + " re-encodes to " + hexOf(g->encode()); });
    if (b[0] == 'e') {
        auto const & e = dynamic_cast<Ellipse const &>(*g);
        c.check(bits(0.5 * PI + getF64(b, 73)) == bits(e.getAlpha().asRadians()) && bits(0.5 * PI + getF64(b, 81)) == bits(e.getBeta().asRadians()) && bits(getF64(b, 89)) == bits(e.getGamma().asRadians()), "golden-ellipse", [&] { return hexOf(b); });
    }
}
