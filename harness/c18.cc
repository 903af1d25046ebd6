// C18: clip, expand, dilate, erode and complement of boxes, circles, ellipses and 3-D boxes, judged by points.
#include "spec.h"
#include "lsst/sphgeom/Box3d.h"
using namespace vh;

namespace {

std::string show(Region const & r) { return describe(r); }

// Longitudes and latitudes at, next to, inside and outside the end points of a box.
void lonlats(Rng & r, Box const & b, std::vector<LonLat> & out, std::vector<double> & lons, std::vector<double> & lats) {
    (void)out;
    if (b.isEmpty()) return;
    double la = b.getLon().getA().asRadians(), lb = b.getLon().getB().asRadians();
    double ta = b.getLat().getA().asRadians(), tb = b.getLat().getB().asRadians();
    auto ring = [](double d) { return d < 0 ? 0.0 : (d > 2 * PI ? 2 * PI : d); };
    for (double d : {la, lb}) { lons.push_back(d); lons.push_back(ring(std::nextafter(d, 10))); lons.push_back(ring(std::nextafter(d, -10))); }
    double w = lb - la; if (w < 0) w += 2 * PI;
    lons.push_back(NormalizedAngle(Angle(la + w * r.uni())).asRadians());
    for (double d : {ta, tb}) for (double e : {d, std::nextafter(d, 10), std::nextafter(d, -10)}) lats.push_back(std::max(-PI / 2, std::min(PI / 2, e)));
    lats.push_back(std::max(ta, std::min(tb, ta + (tb - ta) * r.uni())));
}

bool operatorSame(Box const & a, Box const & b) { return a == b || (a.isEmpty() && b.isEmpty()); }

Box boxFor(Rng & r) { return r.chance(.15) ? makeBox(r, specialUnit(r), anySize(r)) : makeBox(r, anyUnit(r), anySize(r)); }

double sizeOf(NormalizedAngleInterval const & i) { return i.isEmpty() ? -1 : i.getSize().asRadians(); }
}  // namespace

SECTION(boxes, 240000) {
    Rng & r = c.rng;
    Box a = boxFor(r), b = Box();
    if (r.chance(.7)) {
        auto q = relatedRegion(r, a, BOX);
        b = dynamic_cast<Box &>(*q);
        if (!a.isEmpty() && !b.isEmpty() && r.chance(.5)) {
            // share end points
            NormalizedAngle la = b.getLon().getA(), lb = b.getLon().getB();
            Angle ta = b.getLat().getA(), tb = b.getLat().getB();
            if (r.chance(.5)) la = r.chance(.5) ? a.getLon().getB() : a.getLon().getA();
            if (r.chance(.5)) lb = r.chance(.5) ? a.getLon().getB() : a.getLon().getA();
            if (r.chance(.5)) ta = r.chance(.5) ? a.getLat().getB() : a.getLat().getA();
            if (r.chance(.5)) tb = r.chance(.5) ? a.getLat().getB() : a.getLat().getA();
            b = Box(NormalizedAngleInterval(la, lb), AngleInterval(ta, tb));
        }
    } else b = boxFor(r);
    auto msg = [&] { return show(a) + " and " + show(b); };
    c.eval(hashRegion(a) ^ mix(hashRegion(b)));
    Box clip = a.clippedTo(b), expand = a.expandedTo(b), z = a;
    c.check(&z.clipTo(b) == &z && operatorSame(z, clip), "clipTo-differs", msg);
    z = a;
    c.check(&z.expandTo(b) == &z && operatorSame(z, expand), "expandTo-differs", msg);
    z = a; z.clipTo(z); c.check(operatorSame(z, a), "clip-self", msg);
    z = a; z.expandTo(z); c.check(operatorSame(z, a), "expand-self", msg);
    std::vector<LonLat> pts;
    std::vector<double> lons{0, 2 * PI}, lats{-PI / 2, PI / 2, 0};
    lonlats(r, a, pts, lons, lats);
    lonlats(r, b, pts, lons, lats);
    bool common = false;
    for (double lon : lons) for (double lat : lats) {
        LonLat p{NormalizedAngle(lon), Angle(lat)};
        bool ia = a.contains(p), ib = b.contains(p);
        common = common || (ia && ib);
        bool ic = clip.contains(p), ie = expand.contains(p);
        auto pm = [&] { return msg() + " at " + str(lon) + ", " + str(lat) + ": clip " + show(clip) + ", expand " + show(expand); };
        if (ia && ib && !ic) c.fail("clip-misses-points", pm());
        if ((ia || ib) && !ie) c.fail("expand-misses-points", pm());
        if (ic && !(ia || ib) && !(a.getLon().contains(p.getLon()) || b.getLon().contains(p.getLon()))) c.fail("clip-adds-longitudes", pm());
        if (ic && !(a.getLat().contains(p.getLat()) && b.getLat().contains(p.getLat()))) c.fail("clip-adds-latitudes", pm());
    }
    c.check(common == !clip.isEmpty(), "clip-emptiness", [&] { return msg() + " gave " + show(clip); });
    c.check(clip.getLon().isEmpty() == clip.isEmpty() && expand.getLon().isEmpty() == expand.isEmpty(), "half-empty", msg);
    c.check(expand.isEmpty() == (a.isEmpty() && b.isEmpty()), "expand-emptiness", msg);
    if (a.isEmpty() || b.isEmpty()) {
        c.check(operatorSame(expand, a.isEmpty() ? b : a), "expand-with-empty", msg);
    } else {
        c.check(expand.getLat() == AngleInterval(std::min(a.getLat().getA(), b.getLat().getA()), std::max(a.getLat().getB(), b.getLat().getB())), "expand-latitude", msg);
        // the union of two arcs is bounded by an arc from one's start to the other's end, one of them, or everything
        double best = 2 * PI;
        for (auto i : {&a, &b}) for (auto j : {&a, &b}) {
            NormalizedAngleInterval k(i->getLon().getA(), j->getLon().getB());
            if (k.contains(a.getLon()) && k.contains(b.getLon())) best = std::min(best, sizeOf(k));
        }
        c.check(sizeOf(expand.getLon()) <= best + 4e-15, "expand-longitude-too-big", [&] { return msg() + " gave " + show(expand); });
        if (!clip.isEmpty()) c.check(sizeOf(clip.getLon()) <= std::min(sizeOf(a.getLon()), sizeOf(b.getLon())) + 4e-15, "clip-longitude-too-big", [&] { return msg() + " gave " + show(clip); });
    }
    // points
    LonLat p{NormalizedAngle(r.pick(lons)), Angle(r.pick(lats))};
    Box cp = a.clippedTo(p), ep = a.expandedTo(p);
    auto pm = [&] { return show(a) + " and " + str(p.getLon().asRadians()) + ", " + str(p.getLat().asRadians()) + ": " + show(cp) + ", " + show(ep); };
    z = a; z.clipTo(p); c.check(operatorSame(z, cp), "clipTo-point-differs", pm);
    z = a; z.expandTo(p); c.check(operatorSame(z, ep), "expandTo-point-differs", pm);
    c.check(a.contains(p) ? (cp == p && cp.contains(p)) : cp.isEmpty(), "clip-point", pm);
    c.check(ep.contains(p), "expand-point-misses-it", pm);
    if (a.contains(p)) c.check(operatorSame(ep, a), "expand-point-inside", pm);
    if (a.isEmpty()) c.check(ep == p, "expand-empty-to-point", pm);
    for (double lon : lons) for (double lat : lats) { LonLat q{NormalizedAngle(lon), Angle(lat)}; if (a.contains(q) && !ep.contains(q)) { c.fail("expand-point-misses-points", pm()); return; } }
    c.count(clip.isEmpty() ? "box pairs disjoint" : "box pairs overlapping");
    c.sample(msg);
}

// All points within angle r of a box.
SECTION(boxDilation, 160000) {
    Rng & r = c.rng;
    Box a = boxFor(r);
    double d = r.chance(.7) ? anySize(r) * r.uni() : r.pick({0.0, -1.0, 1e-9, PI, PI / 2, 10.0, std::numeric_limits<double>::quiet_NaN(), -1e-20});
    Box x = a.dilatedBy(Angle(d)), z = a;
    auto msg = [&] { return show(a) + " dilated by " + str(d) + " is " + show(x); };
    c.eval(hashRegion(a) ^ bits(d));
    c.check(&z.dilateBy(Angle(d)) == &z && operatorSame(z, x), "dilateBy-differs", msg);
    z = a;
    c.check(operatorSame(z.erodeBy(Angle(-d)), x) && operatorSame(a.erodedBy(Angle(-d)), x), "erodeBy-differs", msg);
    if (a.isEmpty() || a.isFull() || !(d > 0)) { c.check(operatorSame(x, a), "dilate-no-effect", msg); c.count("dilations without effect"); return; }
    std::vector<LonLat> unused;
    std::vector<double> lons, lats;
    lonlats(r, a, unused, lons, lats);
    for (double lon : lons) for (double lat : lats) {
        LonLat p{NormalizedAngle(lon), Angle(lat)};
        if (!a.contains(p)) continue;
        if (!x.contains(p)) { c.fail("dilate-loses-points", msg()); return; }
        V3 v = lonLat(lon, lat);
        LD rr = d * (r.chance(.5) ? 1 - 1e-12L : static_cast<LD>(r.uni())) - 3e-15L;
        if (rr <= 0) continue;
        V3 q = offset(r, v, std::min(rr, PIL));
        // also the point of the circle around v with extremal longitude
        if (r.chance(.5) && sinl(rr) < cosl(static_cast<LD>(lat)) && rr < PIL / 2) {
            LD cl = cosl(static_cast<LD>(lat)), k = sqrtl((cl - sinl(rr)) * (cl + sinl(rr)));
            LD w = atan2l(sinl(rr), k), tl = atan2l(sinl(static_cast<LD>(lat)), k);
            q = lonLat(lon + (r.chance(.5) ? w : -w) , tl);
        }
        if (angleBetween(v, q) > static_cast<LD>(d) - 1e-16L) continue;
        c.eval();
        if (margin(x, q) < -4e-15L) { c.fail("dilate-misses-points", msg() + ": " + describe(q) + " is within the angle of " + str(lon) + ", " + str(lat) + " margin " + str(static_cast<double>(margin(x, q)))); return; }
    }
    // not much more than needed
    double m = std::max(std::fabs(a.getLat().getA().asRadians()), std::fabs(a.getLat().getB().asRadians()));
    c.check(x.getLat().getA().asRadians() >= a.getLat().getA().asRadians() - d - 1e-14 && x.getLat().getB().asRadians() <= a.getLat().getB().asRadians() + d + 1e-14, "dilate-latitude-too-big", msg);
    if (m + d < PI / 2 - 1e-6) {
        LD w = asinl(sinl(static_cast<LD>(d)) / cosl(static_cast<LD>(m)));
        c.check(sizeOf(x.getLon()) <= sizeOf(a.getLon()) + 2 * w * (1 + 1e-6L) + 1e-9L, "dilate-longitude-too-big", msg);
    }
    c.count("dilations with effect");
    c.sample(msg);
}

SECTION(boxDilationWH, 240000) {
    Rng & r = c.rng;
    Box a = boxFor(r);
    auto amount = [&](double s) {
        switch (r.range(0, 5)) {
            case 0: return r.pick({0.0, std::numeric_limits<double>::quiet_NaN(), PI, -PI, 10.0, -10.0, 1e-18});
            case 1: return (r.chance(.5) ? 1 : -1) * s * r.pick({0.5, 0.25, 1.0, 0.4999999, 0.5000001});
            default: return r.uni(-1, 1) * std::max(s, 1e-9);
        }
    };
    double w = amount(std::max(0.0, sizeOf(a.getLon()))), h = amount(a.isEmpty() ? 1 : a.getLat().getSize().asRadians());
    Box x = a.dilatedBy(Angle(w), Angle(h)), z = a;
    auto msg = [&] { return show(a) + " dilated by " + str(w) + ", " + str(h) + " is " + show(x); };
    c.eval(hashRegion(a) ^ bits(w) ^ mix(bits(h)));
    c.check(&z.dilateBy(Angle(w), Angle(h)) == &z && operatorSame(z, x), "dilateBy-differs", msg);
    z = a;
    c.check(operatorSame(z.erodeBy(Angle(-w), Angle(-h)), x) && operatorSame(a.erodedBy(Angle(-w), Angle(-h)), x), "erodeBy-differs", msg);
    if (a.isEmpty() || a.isFull()) { c.check(operatorSame(x, a), "dilate-no-effect", msg); return; }
    if (std::isnan(w)) w = 0;
    if (std::isnan(h)) h = 0;
    LD ta = a.getLat().getA().asRadians(), tb = a.getLat().getB().asRadians();
    if (ta > -PI / 2) ta -= h;
    if (tb < PI / 2) tb += h;
    ta = std::max<LD>(ta, -PI / 2); tb = std::min<LD>(tb, PI / 2);
    LD s = sizeOf(a.getLon());
    bool lonFull = a.getLon().isFull();
    LD t = lonFull ? s : s + 2 * static_cast<LD>(w);
    LD const tol = 1e-14L;
    bool mustBeEmpty = tb - ta < -tol || t < -tol, mayBeEmpty = tb - ta < tol || t < tol;
    if (x.isEmpty()) { if (!mayBeEmpty) c.fail("dilate-empty", msg()); c.count("eroded to nothing"); return; }
    if (mustBeEmpty) { c.fail("erode-not-empty", msg()); return; }
    c.check(fabsl(x.getLat().getA().asRadians() - ta) < tol && fabsl(x.getLat().getB().asRadians() - tb) < tol, "dilate-latitude", msg);
    if (h == 0) c.check(x.getLat() == a.getLat(), "dilate-latitude-by-zero", msg);
    if (w == 0 || lonFull) c.check(x.getLon() == a.getLon(), "dilate-longitude-no-effect", msg);
    else if (t > 2 * PIL - tol) c.check(sizeOf(x.getLon()) > 2 * PI - 1e-13 , "dilate-longitude-not-full", msg);
    else {
        auto same = [&](LD p, LD q) { LD e = fabsl(remainderl(p - q, 2 * PIL)); return e < tol; };
        c.check(fabsl(sizeOf(x.getLon()) - t) < 2 * tol || t < 2 * tol, "dilate-longitude-size", msg);
        c.check(same(x.getLon().getA().asRadians(), a.getLon().getA().asRadians() - static_cast<LD>(w)) && same(x.getLon().getB().asRadians(), a.getLon().getB().asRadians() + static_cast<LD>(w)), "dilate-longitude", msg);
    }
    c.count(w < 0 || h < 0 ? "boxes eroded" : "boxes dilated");
    c.sample(msg);
}

SECTION(circles, 240000) {
    Rng & r = c.rng;
    Circle a = makeCircle(r, anyUnit(r), anySize(r));
    auto q = relatedRegion(r, a, CIRCLE);
    Circle b = dynamic_cast<Circle &>(*q);
    if (r.chance(.1)) b = Circle(nearUnit(r, a.getCenter()), a.getOpeningAngle() * r.pick({1.0, 1.0, 0.5, 0.999999999}));
    auto msg = [&] { return show(a) + " and " + show(b); };
    c.eval(hashRegion(a) ^ mix(hashRegion(b)));
    Circle clip = a.clippedTo(b), expand = a.expandedTo(b), z = a;
    c.check(&z.clipTo(b) == &z && z == clip, "clipTo-differs", msg);
    z = a; c.check(&z.expandTo(b) == &z && z == expand, "expandTo-differs", msg);
    z = a; z.clipTo(z); c.check(z == a, "clip-self", msg);
    z = a; z.expandTo(z); c.check(z == a || (V3(z.getCenter()) - V3(a.getCenter())).norm() < 1e-14L, "expand-self", msg);
    auto pts = testPoints(r, a, 12), more = testPoints(r, b, 12);
    pts.insert(pts.end(), more.begin(), more.end());
    auto pm = [&](UnitVector3d const & p) { return msg() + " at " + describe(p) + ": clip " + show(clip) + ", expand " + show(expand); };
    for (V3 v : pts) {
        UnitVector3d p = toUnit(v);
        bool ia = a.contains(p), ib = b.contains(p);
        c.eval();
        if (ia && ib && !clip.contains(p)) { c.fail("clip-misses-points", pm(p)); break; }
        if ((ia || ib) && !expand.contains(p)) { c.fail("expand-misses-points", pm(p)); break; }
    }
    double A = a.isEmpty() ? -1 : std::min(PI, a.getOpeningAngle().asRadians()), B = b.isEmpty() ? -1 : std::min(PI, b.getOpeningAngle().asRadians());
    double C = clip.isEmpty() ? -1 : std::min(PI, clip.getOpeningAngle().asRadians()), E = expand.isEmpty() ? -1 : std::min(PI, expand.getOpeningAngle().asRadians());
    double cc = static_cast<double>(angleBetween(V3(a.getCenter()), V3(b.getCenter())));
    if (A < 0 || B < 0) {
        c.check(clip.isEmpty() && expand == (A < 0 ? b : a), "empty-operand", [&] { return pm(a.getCenter()); });
    } else {
        c.check(C <= std::min(A, B) + 1e-7, "clip-too-big", [&] { return pm(a.getCenter()); });
        if (cc > A + B + 2e-7) c.check(clip.isEmpty(), "clip-of-disjoint", [&] { return pm(a.getCenter()); });
        LD need = std::max<LD>(std::max(A, B), 0.5L * (static_cast<LD>(cc) + A + B));
        c.check(E <= need + 1e-7 || need > PI - 1e-7, "expand-too-big", [&] { return pm(a.getCenter()); });
        if (A >= PI || B >= PI) c.check(expand.isFull(), "expand-with-full", [&] { return pm(a.getCenter()); });
    }
    // points
    UnitVector3d p = r.chance(.2) ? -a.getCenter() : r.chance(.2) ? nearUnit(r, a.getCenter()) : toUnit(r.pick(pts));
    Circle cp = a.clippedTo(p), ep = a.expandedTo(p);
    auto ppm = [&] { return show(a) + " and " + describe(p) + ": " + show(cp) + ", " + show(ep); };
    z = a; z.clipTo(p); c.check(z == cp, "clipTo-point-differs", ppm);
    z = a; z.expandTo(p); c.check(z == ep, "expandTo-point-differs", ppm);
    c.check(a.contains(p) ? (cp.contains(p) && cp.getOpeningAngle().asRadians() < 1e-7) : cp.isEmpty(), "clip-point", ppm);
    c.check(ep.contains(p), "expand-point-misses-it", ppm);
    if (a.contains(p)) c.check(ep == a, "expand-point-inside", ppm);
    else if (a.isEmpty()) c.check(ep.getOpeningAngle().asRadians() < 1e-7, "expand-empty-to-point", ppm);
    else {
        double need = 0.5 * (static_cast<double>(angleBetween(V3(a.getCenter()), V3(p))) + A);
        c.check(ep.getOpeningAngle().asRadians() <= need + 1e-7, "expand-point-too-big", ppm);
    }
    for (V3 v : pts) { UnitVector3d u = toUnit(v); if (a.contains(u) && !ep.contains(u)) { c.fail("expand-point-misses-points", ppm() + " at " + describe(u)); break; } }
    c.sample(msg);
}

SECTION(circleDilation, 240000) {
    Rng & r = c.rng;
    Circle a = makeCircle(r, anyUnit(r), anySize(r));
    if (r.chance(.3)) a = Circle(a.getCenter(), r.chance(.5) ? r.uni(0, 4) : r.logUni(1e-30, 4));
    double d = r.chance(.2) ? r.pick({0.0, std::numeric_limits<double>::quiet_NaN(), PI, -PI, 10.0, -10.0, -1e-12})
                            : (r.chance(.5) ? 1 : -1) * (r.chance(.5) ? anySize(r) : a.getOpeningAngle().asRadians() * r.uni(0, 1.2));
    Circle x = a.dilatedBy(Angle(d)), z = a;
    auto msg = [&] { return show(a) + " dilated by " + str(d) + " is " + show(x); };
    c.eval(hashRegion(a) ^ bits(d));
    c.check(&z.dilateBy(Angle(d)) == &z && z == x, "dilateBy-differs", msg);
    z = a; c.check(z.erodeBy(Angle(-d)) == x && a.erodedBy(Angle(-d)) == x, "erodeBy-differs", msg);
    if (a.isEmpty() || a.isFull() || std::isnan(d) || d == 0) { c.check(x == a, "dilate-no-effect", msg); return; }
    LD ra = a.getOpeningAngle().asRadians(), want = ra + d;
    V3 ctr = V3(a.getCenter()).unit();
    if (want < -1e-15L) c.check(x.isEmpty(), "erode-not-empty", msg);
    else if (want > PIL + 1e-15L) c.check(x.isFull(), "dilate-not-full", msg);
    else c.check(fabsl(x.getOpeningAngle().asRadians() - want) < 1e-15L || fabsl(want) < 1e-14L || want > PIL - 1e-14L, "dilate-angle", msg);
    for (int i = 0; i < 10; ++i) {
        // p on one side of the boundary of a, q within |d| of it
        LD t = d > 0 ? ra * r.uni() : ra + (PIL - ra) * r.uni();
        if (r.chance(.4)) t = ra;
        V3 p = offset(r, ctr, t);
        V3 q = offset(r, p, std::min<LD>(PIL, fabs(d)) * (r.chance(.5) ? 1.0L : static_cast<LD>(r.uni())));
        if (r.chance(.3)) { LD u = d > 0 ? std::min(PIL, t + std::min<LD>(d, PIL)) : std::max<LD>(0, t + d); q = offset(r, ctr, u); }
        LD tol = 2 * circleTolerance(ctr, q) + 4e-15L, dist = angleBetween(ctr, q);
        c.eval();
        bool in = x.contains(toUnit(q));
        if (d > 0 && dist < want - tol && !in) { c.fail("dilate-misses-points", msg() + " at " + describe(q)); return; }
        if (d < 0 && dist > want + tol && in) { c.fail("erode-keeps-points", msg() + " at " + describe(q)); return; }
        q = offset(r, ctr, std::max<LD>(0, std::min(PIL, want + (r.chance(.5) ? 1 : -1) * static_cast<LD>(r.logUni(1e-14, 1)))));
        dist = angleBetween(ctr, q); tol = 2 * circleTolerance(ctr, q) + 4e-15L;
        in = x.contains(toUnit(q));
        if (fabsl(dist - want) > tol && in != (dist < want)) { c.fail("dilated-membership", msg() + " at " + describe(q)); return; }
    }
    c.count(d > 0 ? "circles dilated" : "circles eroded");
    c.sample(msg);
}

SECTION(complements, 240000) {
    Rng & r = c.rng;
    bool circle = r.chance(.5);
    Spec s = circle ? circleSpec(r, anyUnit(r), anySize(r)) : ellipseSpec(r, anyUnit(r), anySize(r));
    RegionPtr x;
    if (circle) {
        auto const & a = dynamic_cast<Circle const &>(*s.region);
        Circle k = a.complemented(), z = a;
        c.check(&z.complement() == &z && z == k, "complement-differs", [&] { return s.desc; });
        c.check(!a.isEmpty() || k.isFull(), "complement-of-empty", [&] { return s.desc; });
        c.check(!a.isFull() || k.isEmpty(), "complement-of-full", [&] { return s.desc; });
        if (!a.isEmpty() && !a.isFull() && a.getSquaredChordLength() > 0 && !k.isFull()) {
            Circle kk = k.complemented();
            c.check(kk.getCenter() == a.getCenter() && std::fabs(kk.getSquaredChordLength() - a.getSquaredChordLength()) < 2e-15 && std::fabs(kk.getOpeningAngle().asRadians() - a.getOpeningAngle().asRadians()) < 2e-15,
                    "complement-twice", [&] { return s.desc + " gave " + show(kk); });
        }
        x = std::make_unique<Circle>(k);
    } else {
        auto const & a = dynamic_cast<Ellipse const &>(*s.region);
        Ellipse k = a.complemented(), z = a;
        c.check(&z.complement() == &z && z == k, "complement-differs", [&] { return s.desc; });
        z.complement();
        c.check(z == a && z.getTransformMatrix() == a.getTransformMatrix(), "complement-twice", [&] { return s.desc; });
        c.check(!a.isEmpty() || k.isFull(), "complement-of-empty", [&] { return s.desc; });
        c.check(!a.isFull() || k.isEmpty() || a.isEmpty(), "complement-of-full", [&] { return s.desc; });
        x = std::make_unique<Ellipse>(k);
    }
    c.eval(hashRegion(*s.region));
    for (V3 v : testPoints(r, *s.region, 10)) {
        UnitVector3d p = toUnit(v);
        int k = s.kleene(V3(p));
        c.eval();
        c.count(k > 0 ? "points inside" : k < 0 ? "points outside" : "points undecided");
        // double the tolerance: complementing rounds once more
        LD m = s.margin(V3(p)), t = 2 * s.tolerance(V3(p)) + 1e-14L + (circle ? 2 * circleTolerance(-s.seed, V3(p)) : 0);
        if (fabsl(m) <= t && fabsl(m) < INFM / 2) continue;
        if (x->contains(p) != (m < 0)) { c.fail("complement-membership", s.desc + " complemented to " + show(*x) + " at " + describe(p) + " margin " + str(static_cast<double>(m))); return; }
    }
    c.sample([&] { return s.desc; });
}

SECTION(boxes3d, 480000) {
    Rng & r = c.rng;
    std::vector<double> pal;
    for (int i = 0; i < 5; ++i) pal.push_back(r.chance(.3) ? r.pick({0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 5e-324}) : r.uni(-1, 1));
    struct B { double lo[3], hi[3]; bool empty; };
    auto gen = [&](Box3d & out) {
        B b; b.empty = false;
        Interval1d iv[3];
        for (int k = 0; k < 3; ++k) {
            b.lo[k] = r.pick(pal); b.hi[k] = r.pick(pal);
            if (b.lo[k] > b.hi[k] && r.chance(.9)) std::swap(b.lo[k], b.hi[k]);
            if (b.lo[k] > b.hi[k]) b.empty = true;
            iv[k] = Interval1d(b.lo[k], b.hi[k]);
        }
        if (r.chance(.03)) { out = Box3d::empty(); b.empty = true; return b; }
        if (r.chance(.03)) { out = Box3d::full(); for (int k = 0; k < 3; ++k) { b.lo[k] = -INFINITY; b.hi[k] = INFINITY; } b.empty = false; return b; }
        out = r.chance(.5) ? Box3d(iv[0], iv[1], iv[2]) : Box3d(Vector3d(b.lo[0], b.lo[1], b.lo[2]), Vector3d(b.hi[0], b.hi[1], b.hi[2]));
        return b;
    };
    auto same = [](Box3d const & x, B const & b) {
        if (b.empty) return x.isEmpty() && x.y().isEmpty() && x.z().isEmpty();
        for (int k = 0; k < 3; ++k) if (x(k).getA() != b.lo[k] || x(k).getB() != b.hi[k]) return false;
        return !x.isEmpty();
    };
    auto text = [](Box3d const & b) { return toStr(b); };
    Box3d a, b;
    B ra = gen(a), rb = gen(b);
    auto msg = [&] { return text(a) + " and " + text(b); };
    double key[12]; for (int k = 0; k < 3; ++k) { key[k] = a(k).getA(); key[3 + k] = a(k).getB(); key[6 + k] = b(k).getA(); key[9 + k] = b(k).getB(); }
    c.eval(hashBytes(key, sizeof key));
    c.check(same(a, ra) && same(b, rb), "box3d-construction", msg);
    B cl{}, ex{}, z3{};
    cl.empty = ra.empty || rb.empty;
    bool con = true, dis = cl.empty, wit = true;
    for (int k = 0; k < 3; ++k) {
        cl.lo[k] = std::max(ra.lo[k], rb.lo[k]); cl.hi[k] = std::min(ra.hi[k], rb.hi[k]);
        if (cl.lo[k] > cl.hi[k]) cl.empty = dis = true;
        ex.lo[k] = std::min(ra.lo[k], rb.lo[k]); ex.hi[k] = std::max(ra.hi[k], rb.hi[k]);
        con = con && ra.lo[k] <= rb.lo[k] && rb.hi[k] <= ra.hi[k];
        wit = wit && rb.lo[k] <= ra.lo[k] && ra.hi[k] <= rb.hi[k];
    }
    if (ra.empty) { ex = rb; con = rb.empty; wit = true; }
    if (rb.empty) { if (!ra.empty) ex = ra; con = true; wit = ra.empty; }
    ex.empty = ra.empty && rb.empty;
    c.check(same(a.clippedTo(b), cl), "box3d-clip", [&] { return msg() + " gave " + text(a.clippedTo(b)); });
    c.check(same(a.expandedTo(b), ex), "box3d-expand", [&] { return msg() + " gave " + text(a.expandedTo(b)); });
    Box3d z = a; c.check(&z.clipTo(b) == &z && z == a.clippedTo(b), "box3d-clipTo", msg);
    z = a; c.check(&z.expandTo(b) == &z && z == a.expandedTo(b), "box3d-expandTo", msg);
    auto f = [](Relationship q) { return (q & CONTAINS).any() + 2 * (q & DISJOINT).any() + 4 * (q & WITHIN).any(); };
    c.check(a.contains(b) == con && a.isWithin(b) == wit && a.isDisjointFrom(b) == dis && a.intersects(b) == !dis, "box3d-predicates", msg);
    c.check(f(a.relate(b)) == con + 2 * dis + 4 * wit, "box3d-relate", msg);
    c.check((a == b) == (con && wit) && (a != b) == !(con && wit), "box3d-equality", msg);
    // point
    Vector3d p(r.pick(pal), r.pick(pal), r.pick(pal));
    bool in = !ra.empty;
    for (int k = 0; k < 3; ++k) in = in && ra.lo[k] <= p(k) && p(k) <= ra.hi[k];
    bool only = in; for (int k = 0; k < 3; ++k) only = only && ra.lo[k] == ra.hi[k];
    c.check(a.contains(p) == in && a.contains(p.x(), p.y(), p.z()) == in && a.intersects(p) == in && a.isDisjointFrom(p) == !in && a.isWithin(p) == (ra.empty || only), "box3d-point", [&] { return text(a) + " " + toStr(p); });
    c.check((a == p) == only && (a != p) == !only, "box3d-point-equality", [&] { return text(a) + " " + toStr(p); });
    c.check(f(a.relate(p)) == in + 2 * !in + 4 * (ra.empty || only), "box3d-point-relate", [&] { return text(a) + " " + toStr(p); });
    cl.empty = !in; ex = ra; ex.empty = false;
    for (int k = 0; k < 3; ++k) { cl.lo[k] = cl.hi[k] = p(k); ex.lo[k] = ra.empty ? p(k) : std::min(ra.lo[k], p(k)); ex.hi[k] = ra.empty ? p(k) : std::max(ra.hi[k], p(k)); }
    c.check(same(a.clippedTo(p), cl), "box3d-clip-point", [&] { return text(a) + " " + toStr(p); });
    c.check(same(a.expandedTo(p), ex), "box3d-expand-point", [&] { return text(a) + " " + toStr(p); });
    // dilation
    double d[3];
    for (double & w : d) w = r.pick({0.0, 0.25, -0.25, 1.0, -1.0, r.uni(-1, 1), std::numeric_limits<double>::quiet_NaN()});
    bool uniform = r.chance(.5);
    if (uniform) d[1] = d[2] = d[0];
    Box3d x = uniform ? a.dilatedBy(d[0]) : a.dilatedBy(d[0], d[1], d[2]);
    z = a; if (uniform) z.dilateBy(d[0]); else z.dilateBy(d[0], d[1], d[2]);
    auto dm = [&] { return text(a) + " dilated by " + str(d[0]) + ", " + str(d[1]) + ", " + str(d[2]) + " is " + text(x); };
    c.check(z == x, "box3d-dilateBy", dm);
    z = a; if (uniform) z.erodeBy(-d[0]); else z.erodeBy(-d[0], -d[1], -d[2]);
    c.check(z == x && (uniform ? a.erodedBy(-d[0]) : a.erodedBy(-d[0], -d[1], -d[2])) == x, "box3d-erodeBy", dm);
    ex = ra;
    for (int k = 0; k < 3; ++k) {
        bool full = ra.lo[k] == -INFINITY && ra.hi[k] == INFINITY;
        if (ra.empty || full || std::isnan(d[k]) || d[k] == 0) continue;
        ex.lo[k] -= d[k]; ex.hi[k] += d[k];
        if (!(ex.lo[k] <= ex.hi[k])) ex.empty = true;
    }
    c.check(same(x, ex), "box3d-dilate", dm);
    c.count(ra.empty || rb.empty ? "3-D boxes with an empty operand" : dis ? "3-D boxes disjoint" : "3-D boxes overlapping");
}
