// C01: hostile arguments to every public operation, under sanitizers and valgrind; in the plain build
// every case runs twice over differently filled heap and stack memory and must give the same answers.
#include <malloc.h>
#include <alloca.h>
#include "codecgen.h"
#include "pix.h"
#include "spec.h"
#include "lsst/sphgeom/BigInteger.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/RangeSet.h"
using namespace lsst::sphgeom;
using namespace vh;

namespace {

struct Sink {
    std::uint64_t h = 1, calls = 0, thrown = 0;
    void u(std::uint64_t x) { h = mix(h ^ x); }
    void d(double x) { u(x != x ? 0x7ff8000000000000ull : bits(x)); }
    void operator()(bool x) { u(x); }
    void operator()(int x) { u(static_cast<std::uint64_t>(x)); }
    void operator()(std::uint64_t x) { u(x); }
    void operator()(std::uint8_t x) { u(x); }
    void operator()(double x) { d(x); }
    void operator()(Angle x) { d(x.asRadians()); }
    void operator()(Relationship x) { u(x.to_ulong()); }
    void operator()(std::string const & x) { u(hashBytes(x.data(), x.size())); }
    void operator()(Vector3d const & x) { d(x.x()); d(x.y()); d(x.z()); }
    void operator()(UnitVector3d const & x) { (*this)(static_cast<Vector3d const &>(x)); }
    void operator()(Matrix3d const & m) { for (int i = 0; i < 3; ++i) (*this)(m.getColumn(i)); }
    void operator()(LonLat const & x) { (*this)(x.getLon()); (*this)(x.getLat()); }
    void operator()(Interval1d const & x) { d(x.getA()); d(x.getB()); }
    void operator()(AngleInterval const & x) { (*this)(x.getA()); (*this)(x.getB()); }
    void operator()(NormalizedAngleInterval const & x) { (*this)(x.getA()); (*this)(x.getB()); }
    void operator()(Box3d const & x) { (*this)(x.x()); (*this)(x.y()); (*this)(x.z()); }
    void operator()(RangeSet const & x) { u(x.size()); for (auto const & t : x) { u(std::get<0>(t)); u(std::get<1>(t)); } }
    void operator()(Region const & x) {
        auto e = x.encode();
        // NaNs may carry any sign
        if (e.size() < 8) { u(hashBytes(e.data(), e.size())); return; }
        if (auto b = dynamic_cast<Box const *>(&x)) { (*this)(b->getLon()); (*this)(b->getLat()); }
        else if (auto b = dynamic_cast<Circle const *>(&x)) { (*this)(b->getCenter()); (*this)(b->getSquaredChordLength()); (*this)(b->getOpeningAngle()); }
        else if (auto b = dynamic_cast<Ellipse const *>(&x)) { (*this)(b->getTransformMatrix()); (*this)(b->getAlpha()); (*this)(b->getBeta()); (*this)(b->getGamma()); }
        else if (auto b = dynamic_cast<ConvexPolygon const *>(&x)) { for (auto const & v : b->getVertices()) (*this)(v); }
        else if (auto b = dynamic_cast<CompoundRegion const *>(&x)) { (*this)(b->getOperand(0)); (*this)(b->getOperand(1)); }
        u(e.size());
    }
    template <typename T> void print(T const & x) { std::ostringstream o; o << x; (*this)(o.str()); }
};

// Evaluates an expression whose outcome may be any value or a std::exception.
#define TRY(...) \
    do { \
        ++s.calls; \
        try { __VA_ARGS__; } catch (std::exception const & e) { ++s.thrown; s(std::string(e.what())); } \
    } while (0)

double hd(Rng & r) { return hostileDouble(r); }
Angle ha(Rng & r) { return Angle(hd(r)); }
Vector3d hv(Rng & r) {
    switch (r.range(0, 3)) {
        case 0: return Vector3d(hd(r), hd(r), hd(r));
        case 1: { auto u = anyUnit(r); double k = hd(r); return Vector3d(u.x() * k, u.y() * k, u.z() * k); }
        case 2: { double k = hd(r); return Vector3d(k, r.chance(.5) ? k : -k, r.chance(.5) ? k : hd(r)); }
        default: return anyUnit(r);
    }
}
// unit vectors obtained without violating preconditions, which includes those with NaN components
UnitVector3d hu(Rng & r) {
    for (;;) try {
        switch (r.range(0, 7)) {
            case 0: return UnitVector3d(hv(r));
            case 1: return UnitVector3d(hd(r), hd(r), hd(r));
            case 2: return UnitVector3d(ha(r), ha(r));
            case 3: return UnitVector3d::orthogonalTo(hv(r));
            case 4: return UnitVector3d::northFrom(hv(r));
            default: return anyUnit(r);
        }
    } catch (std::exception const &) {}
}
LonLat hl(Rng & r) {
    for (;;) try {
        switch (r.range(0, 3)) {
            case 0: return LonLat(NormalizedAngle(hd(r)), ha(r));
            case 1: return LonLat(hv(r));
            case 2: return LonLat::fromRadians(hd(r), hd(r));
            default: return LonLat(anyUnit(r));
        }
    } catch (std::exception const &) {}
}
NormalizedAngle hn(Rng & r) { return r.chance(.1) ? NormalizedAngle(hv(r), hv(r)) : r.chance(.1) ? NormalizedAngle(hl(r), hl(r)) : NormalizedAngle(hd(r)); }
NormalizedAngleInterval hni(Rng & r) {
    for (;;) try {
        switch (r.range(0, 4)) {
            case 0: return NormalizedAngleInterval(ha(r), ha(r));
            case 1: return NormalizedAngleInterval(hn(r));
            case 2: return r.pick({NormalizedAngleInterval::empty(), NormalizedAngleInterval::full(), NormalizedAngleInterval()});
            default: return NormalizedAngleInterval(hn(r), hn(r));
        }
    } catch (std::exception const &) {}
}
Box hb(Rng & r) {
    for (;;) try {
        switch (r.range(0, 7)) {
            case 0: return Box(hl(r));
            case 1: return Box(hl(r), hl(r));
            case 2: return Box(hl(r), ha(r), ha(r));
            case 3: return Box(hni(r), AngleInterval(ha(r), ha(r)));
            case 4: return Box::fromRadians(hd(r), hd(r), hd(r), hd(r));
            case 5: return Box::fromDegrees(hd(r), hd(r), hd(r), hd(r));
            default: return makeBox(r, anyUnit(r), anySize(r));
        }
    } catch (std::exception const &) {}
}
Circle hc(Rng & r) {
    switch (r.range(0, 5)) {
        case 0: return Circle(hu(r));
        case 1: return Circle(hu(r), ha(r));
        case 2: return Circle(hu(r), hd(r));
        case 3: return Circle(anyUnit(r), ha(r));
        default: return makeCircle(r, anyUnit(r), anySize(r));
    }
}
Ellipse he(Rng & r) {
    for (;;) try {
        switch (r.range(0, 5)) {
            case 0: return Ellipse(hc(r));
            case 1: return Ellipse(hu(r), ha(r));
            case 2: return Ellipse(hu(r), hu(r), ha(r));
            case 3: return Ellipse(hu(r), ha(r), ha(r), ha(r));
            case 4: return Ellipse(anyUnit(r), Angle(r.uni(0, PI)), ha(r), ha(r));
            default: return makeEllipse(r, anyUnit(r), anySize(r));
        }
    } catch (std::exception const &) {}
}
ConvexPolygon hp(Rng & r) {
    for (;;) try {
        switch (r.range(0, 4)) {
            case 0: { std::vector<UnitVector3d> v; for (int i = 0, n = r.range(3, 6); i < n; ++i) v.push_back(hu(r)); return ConvexPolygon(v); }
            case 1: { std::vector<UnitVector3d> v; auto c = anyUnit(r); for (int i = 0, n = r.range(3, 9); i < n; ++i) v.push_back(nearUnit(r, c)); return ConvexPolygon::convexHull(v); }
            case 2: return ConvexPolygon(anyUnit(r), anyUnit(r), anyUnit(r), anyUnit(r));
            default: return makePolygon(r, anyUnit(r), anySize(r));
        }
    } catch (std::exception const &) {}
}
RegionPtr hr(Rng & r, int depth = 0) {
    switch (r.range(0, depth < 2 ? 6 : 3)) {
        case 0: return std::make_unique<Box>(hb(r));
        case 1: return std::make_unique<Circle>(hc(r));
        case 2: return std::make_unique<Ellipse>(he(r));
        case 3: return std::make_unique<ConvexPolygon>(hp(r));
        case 4: { auto a = hr(r, depth + 1), b = hr(r, depth + 1); return std::make_unique<UnionRegion>(*a, *b); }
        case 5: { auto a = hr(r, depth + 1), b = hr(r, depth + 1); return std::make_unique<IntersectionRegion>(*a, *b); }
        default: {
            // what decoding mutated bytes yields
            auto a = hr(r, depth + 1);
            auto e = a->encode();
            for (int k = r.range(1, 3); k > 0; --k) {
                double d = hd(r);
                if (e.size() >= 9) { size_t i = 1 + 8 * r.below((e.size() - 1) / 8); std::memcpy(&e[i], &d, 8); }
            }
            try { return Region::decode(e); } catch (std::exception const &) { return a; }
        }
    }
}
std::uint64_t hi(Rng & r) {
    switch (r.range(0, 4)) {
        case 0: return r.u64();
        case 1: return r.below(300);
        case 2: return (std::uint64_t(1) << r.below(64)) + static_cast<std::uint64_t>(r.range(-2, 2));
        case 3: return ~std::uint64_t(0) - r.below(5);
        default: return r.u64() >> r.below(64);
    }
}

void scalars(Rng & r, Sink & s) {
    double x = hd(r), y = hd(r);
    Angle a(x), b(y);
    s(a + b); s(a - b); s(-a); s(a * y); s(a / y); s(a / b); s(2.5 * a); s(a == b); s(a < b); s(a.asDegrees()); s(a.isNormalized()); s(a.isNan()); s(Angle::fromDegrees(x));
    s(sin(a)); s(cos(a)); s(tan(a)); s(abs(a));
    Angle c = a; c += b; c -= a; c *= y; c /= x; s(c); s.print(a);
    NormalizedAngle n(x), m(y);
    s(n); s(m); s(NormalizedAngle(a)); s(NormalizedAngle::fromDegrees(x)); s(NormalizedAngle::between(n, m)); s(NormalizedAngle::center(n, m)); s(n.getAngleTo(m)); s(n + b); s(n - b); s(-n); s(n < b);
    s(NormalizedAngle(hl(r), hl(r))); s(NormalizedAngle(hv(r), hv(r)));
    TRY(s(LonLat::fromDegrees(x, y))); TRY(s(LonLat::fromRadians(x, y))); TRY(s(LonLat(n, b)));
    Vector3d v = hv(r);
    TRY(s(LonLat(v))); s(LonLat::latitudeOf(v)); s(LonLat::longitudeOf(v));
    s.print(hl(r)); s(hl(r) == hl(r));
    s(getMinAngleToCircle(a, b)); s(getMaxAngleToCircle(a, b));
    TRY(s(Box::halfWidthForCircle(a, b)));
    s(Circle::squaredChordLengthFor(a)); s(Circle::openingAngleFor(x));
}

void vectors(Rng & r, Sink & s) {
    Vector3d v = hv(r), w = hv(r);
    double k = hd(r);
    s(v + w); s(v - w); s(-v); s(v * k); s(v / k); s(k * v); s(v.dot(w)); s(v.cross(w)); s(v.cwiseProduct(w)); s(v.getNorm()); s(v.getSquaredNorm()); s(v.isZero()); s(v.isNormalized()); s(v == w); s(v(1)); s.print(v);
    { Vector3d t = v; TRY(s(t.normalize())); s(t); t *= k; t /= hd(r); t += w; t -= v; s(t); }
    UnitVector3d p = hu(r), q = hu(r), t = hu(r);
    TRY(s(UnitVector3d(v))); TRY(s(UnitVector3d(k, hd(r), hd(r)))); TRY(s(UnitVector3d(ha(r), ha(r)))); TRY(s(UnitVector3d(hl(r))));
    TRY(s(UnitVector3d::orthogonalTo(v))); TRY(s(UnitVector3d::orthogonalTo(v, w))); TRY(s(UnitVector3d::northFrom(v))); s(UnitVector3d::orthogonalTo(hn(r)));
    TRY(s(v.rotatedAround(p, ha(r)))); TRY(s(p.rotatedAround(q, ha(r))));
    s(p.robustCross(q)); s(p.cross(q)); s(p.dot(w)); s(p + v); s(p - v); s(p * k); s(p / k); s(-p); s(p.cwiseProduct(v)); s(p == q); s.print(p);
    TRY(s(orientation(p, q, t))); TRY(s(orientationExact(p, q, t))); TRY(s(orientationExact(v, w, hv(r)))); TRY(s(orientationX(p, q))); TRY(s(orientationY(p, q))); TRY(s(orientationZ(p, q)));
    s(getMinSquaredChordLength(v, p, q, w)); s(getMaxSquaredChordLength(v, p, q, w));
    TRY(s(getWeightedCentroid(p, q, t)));
    Matrix3d m(hd(r), hd(r), hd(r), hd(r), hd(r), hd(r), hd(r), hd(r), hd(r)), o(v), z(k);
    s(m * o); s(m + z); s(m - o); s(m * v); s(m.cwiseProduct(o)); s(m.transpose()); s(m.inverse()); s(z.inverse()); s(m.inner(o)); s(m.getNorm()); s(m.getSquaredNorm()); s(m == o); s(m.getRow(2)); s.print(m);
}

template <typename I, typename S> void pokeInterval(Rng & r, Sink & s, I const & a, I const & b, S x) {
    s(a == b); s(a == x); s(a.getA() == x); s(a.isEmpty()); s(a.getCenter()); s(a.getSize()); s(a.contains(x)); s(a.contains(b)); s(a.isDisjointFrom(x)); s(a.isDisjointFrom(b));
    s(a.intersects(x)); s(a.intersects(b)); s(a.isWithin(x)); s(a.isWithin(b)); s(a.relate(x)); s(a.relate(b)); s(I(a.clippedTo(x))); s(I(a.clippedTo(b))); s(I(a.expandedTo(x))); s(I(a.expandedTo(b)));
    I c(a); c.clipTo(b); s(c); c.expandTo(b); s(c); c.expandTo(x); c.clipTo(x); s(c); s.print(a);
    (void)r;
}

void intervals(Rng & r, Sink & s) {
    { Interval1d a(hd(r), hd(r)), b(hd(r), hd(r)); double x = hd(r); pokeInterval(r, s, a, b, x); s(Interval1d(a.dilatedBy(x))); s(Interval1d(a.erodedBy(x))); s(a.isFull()); }
    { AngleInterval a(ha(r), ha(r)), b(ha(r), ha(r)); Angle x = ha(r); pokeInterval(r, s, a, b, x); s(AngleInterval(a.dilatedBy(x))); s(AngleInterval(a.erodedBy(x))); s(AngleInterval::fromDegrees(hd(r), hd(r))); }
    { NormalizedAngleInterval a = hni(r), b = hni(r); pokeInterval(r, s, a, b, hn(r)); Angle x = ha(r); s(a.dilatedBy(x)); s(a.erodedBy(x)); s(a.isFull()); s(a.wraps());
      TRY(s(NormalizedAngleInterval(ha(r), ha(r)))); TRY(s(NormalizedAngleInterval::fromDegrees(hd(r), hd(r)))); TRY(s(NormalizedAngleInterval::fromRadians(hd(r), hd(r)))); }
    {
        auto mk = [&] { switch (r.range(0, 4)) { case 0: return Box3d(hv(r)); case 1: return Box3d(hv(r), hv(r)); case 2: return Box3d(hv(r), hd(r), hd(r), hd(r)); case 3: return r.pick({Box3d::empty(), Box3d::full(), Box3d::aroundUnitSphere()}); default: return Box3d(Interval1d(hd(r), hd(r)), Interval1d(hd(r), hd(r)), Interval1d(hd(r), hd(r))); } };
        Box3d a = mk(), b = mk();
        Vector3d v = hv(r);
        s(a == b); s(a == v); s(a(2)); s(a.isEmpty()); s(a.isFull()); s(a.getCenter()); s(a.getWidth()); s(a.getHeight()); s(a.getDepth()); s(a.contains(v)); s(a.contains(b)); s(a.contains(v.x(), v.y(), v.z())); s(a.isDisjointFrom(b)); s(a.isDisjointFrom(v)); s(a.intersects(v)); s(a.intersects(b)); s(a.isWithin(v)); s(a.isWithin(b));
        s(a.clippedTo(v)); s(a.clippedTo(b)); s(a.expandedTo(v)); s(a.expandedTo(b)); s(a.dilatedBy(hd(r))); s(a.dilatedBy(hd(r), hd(r), hd(r))); s(a.erodedBy(hd(r))); s(a.erodedBy(hd(r), hd(r), hd(r))); s(a.relate(v)); s(a.relate(b)); s.print(a);
        Box3d c(a); c.clipTo(b).expandTo(v); c.dilateBy(hd(r)); c.erodeBy(hd(r)); s(c);
    }
}

void pokeRegion(Rng & r, Sink & s, Region const & a, Region const & b) {
    TRY(s(a.getBoundingBox())); TRY(s(a.getBoundingBox3d())); TRY(s(a.getBoundingCircle()));
    for (int i = 0; i < 4; ++i) { UnitVector3d v = r.chance(.3) ? hu(r) : anyUnit(r); TRY(s(a.contains(v))); TRY(s(a.contains(hd(r), hd(r), hd(r)))); TRY(s(a.contains(hd(r), hd(r)))); }
    TRY(s(a.relate(b))); TRY(s(b.relate(a)));
    TRY(s(*a.clone())); TRY(s(a));
    TRY(s(*Region::decode(a.encode())));
    TRY(for (auto const & x : Region::getRegions(a)) s(*x));
    if (auto x = dynamic_cast<Box const *>(&a)) {
        Box c = hb(r); LonLat l = hl(r); Angle w = ha(r), h = ha(r);
        s(*x == c); s(*x == l); s(x->isEmpty()); s(x->isFull()); TRY(s(x->getCenter())); s(x->getWidth()); s(x->getHeight()); s(x->contains(l)); s(x->contains(c)); s(x->isDisjointFrom(l)); s(x->isDisjointFrom(c)); s(x->intersects(l)); s(x->intersects(c)); s(x->isWithin(l)); s(x->isWithin(c));
        TRY(s(x->clippedTo(l))); TRY(s(x->clippedTo(c))); TRY(s(x->expandedTo(l))); TRY(s(x->expandedTo(c))); TRY(s(x->dilatedBy(w))); TRY(s(x->dilatedBy(w, h))); TRY(s(x->erodedBy(w))); TRY(s(x->erodedBy(w, h))); s(x->relate(l)); s(x->getArea()); s.print(*x);
    } else if (auto x = dynamic_cast<Circle const *>(&a)) {
        Circle c = hc(r); UnitVector3d v = hu(r); Angle w = ha(r);
        s(*x == c); s(x->isEmpty()); s(x->isFull()); s(x->contains(c)); s(x->isDisjointFrom(v)); s(x->isDisjointFrom(c)); s(x->intersects(v)); s(x->intersects(c)); s(x->isWithin(v)); s(x->isWithin(c));
        TRY(s(x->clippedTo(v))); TRY(s(x->clippedTo(c))); TRY(s(x->expandedTo(v))); TRY(s(x->expandedTo(c))); TRY(s(x->dilatedBy(w))); TRY(s(x->erodedBy(w))); TRY(s(x->complemented())); s(x->relate(v)); s(x->getArea()); s.print(*x);
    } else if (auto x = dynamic_cast<Ellipse const *>(&a)) {
        s(*x == he(r)); s(x->isEmpty()); s(x->isFull()); s(x->isCircle()); s(x->isGreatCircle()); TRY(s(x->getCenter())); TRY(s(x->getF1())); TRY(s(x->getF2())); s(x->getAlpha()); s(x->getBeta()); s(x->getGamma()); TRY(s(x->complemented())); s.print(*x);
    } else if (auto x = dynamic_cast<ConvexPolygon const *>(&a)) {
        ConvexPolygon c = hp(r);
        s(*x == c); TRY(s(x->getCentroid())); TRY(s(x->contains(b))); TRY(s(x->isDisjointFrom(b))); TRY(s(x->intersects(b))); TRY(s(x->isWithin(b))); s.print(*x);
    }
}

void regions(Rng & r, Sink & s) {
    for (int i = 0; i < 3; ++i) { auto a = hr(r), b = hr(r); if (r.chance(.3)) try { b = relatedRegion(r, *a, r.range(0, 5)); } catch (std::exception const &) {} pokeRegion(r, s, *a, *b); }
    TRY(s(Ellipse(hu(r), hu(r), ha(r)))); TRY(s(Ellipse(hu(r), ha(r), ha(r), ha(r))));
    std::vector<UnitVector3d> v;
    for (int i = 0, n = r.range(0, 9); i < n; ++i) v.push_back(!v.empty() && r.chance(.3) ? nearUnit(r, v.back()) : hu(r));
    TRY(s(ConvexPolygon::convexHull(v)));
}

void pixels(Rng & r, Sink & s) {
    int k = r.range(0, 2);
    {
        int l = r.chance(.5) ? r.range(-3, 40) : static_cast<int>(r.u64());
        TRY(s(HtmPixelization(l).getLevel())); TRY(s(Q3cPixelization(l).getLevel())); TRY(s(Mq3cPixelization(l).getLevel()));
    }
    Pix p(k, r.range(0, Pix::maxLevel(k)));
    for (int i = 0; i < 4; ++i) {
        UnitVector3d v = hu(r);
        std::uint64_t n = 0;
        TRY(n = p.p->index(v); s(n); s(p.p->toString(n)); s(*p.p->pixel(n)));
        std::uint64_t m = r.chance(.5) ? p.randomIndex(r) : hi(r);
        TRY(s(*p.p->pixel(m))); TRY(s(p.p->toString(m))); TRY(s(p.polygon(m)));
        if (k) TRY(for (auto x : p.neighborhood(m)) s(x));
        TRY(s(HtmPixelization::level(m))); TRY(s(HtmPixelization::triangle(m))); TRY(s(HtmPixelization::asString(m)));
        TRY(s(Mq3cPixelization::level(m))); TRY(s(Mq3cPixelization::quad(m))); TRY(s(Mq3cPixelization::asString(m))); TRY(for (auto x : Mq3cPixelization::neighborhood(m)) s(x));
    }
    s(p.p->universe());
    // The work is proportional to the number of pixels on the boundary, whatever the cap, and a region with NaN parameters
    // intersects every pixel without containing any, so deep levels are for small regions.
    Pix q(k, r.chance(.6) ? r.range(0, 4) : p.level);
    auto a = q.level <= 4 ? hr(r) : makeRegion(r, r.range(0, 3), anyUnit(r), r.logUni(.5, 20) / std::pow(2.0, q.level));
    if (q.level > 4 && !(a->getBoundingCircle().getOpeningAngle().asRadians() * std::pow(2.0, q.level) < 80)) return;
    size_t cap = r.pick<size_t>({0, 0, 1, 7, 100});
    TRY(s(q.p->envelope(*a, cap)));
    TRY(s(q.p->interior(*a, cap)));
}

void chunks(Rng & r, Sink & s) {
    auto hint = [&] { return r.chance(.5) ? r.range(-2, 40) : r.pick({INT32_MIN, INT32_MAX, -1, 0, 46340, 46341, 65536, 1 << 30, static_cast<int>(r.u64())}); };
    std::int64_t n = hint(), m = hint();
    if (n < 1 || m < 1 || n * m > 648000 || n * m <= 20000)
        TRY(Chunker c(static_cast<std::int32_t>(n), static_cast<std::int32_t>(m)); s(c.getNumStripes()));
    Chunker c(r.range(1, 25), r.range(1, 6));
    auto a = hr(r);
    TRY(for (auto x : c.getChunksIntersecting(*a)) s(x));
    TRY(for (auto const & x : c.getSubChunksIntersecting(*a)) { s(x.chunkId); for (auto y : x.subChunkIds) s(y); });
    for (int i = 0; i < 6; ++i) {
        std::int32_t id = hint(), jd = hint();
        TRY(s(c.valid(id))); TRY(s(c.getStripe(id))); TRY(s(c.getChunk(id, c.getStripe(id)))); TRY(s(c.getChunk(id, jd)));
        if (c.valid(id)) TRY(for (auto x : c.getAllSubChunks(id)) s(x));
        TRY(s(c.getChunkBoundingBox(id, jd))); TRY(s(c.getSubChunkBoundingBox(id, jd)));
        if (!c.valid(id)) TRY(for (auto x : c.getAllSubChunks(id)) s(x));
    }
    TRY(for (auto x : c.getAllChunks()) s(x));
    s(c == Chunker(2, 2));
}

void sets(Rng & r, Sink & s) {
    RangeSet a, b;
    for (int i = 0; i < 12; ++i) {
        std::uint64_t x = hi(r), y = hi(r);
        switch (r.below(12)) {
            case 0: case 1: TRY(a.insert(x, y)); break;
            case 2: TRY(a.erase(x, y)); break;
            case 3: TRY(a.insert(x)); break;
            case 4: TRY(a.erase(x)); break;
            case 5: a.complement(); break;
            case 6: TRY(a.simplify(static_cast<std::uint32_t>(hi(r)))); break;
            case 7: if (a.size() < 500) TRY(a.scale(hi(r))); break;
            case 8: std::swap(a, b); break;
            case 9: TRY(b = a | RangeSet(x, y)); break;
            case 10: TRY(a ^= b); TRY(a -= a); break;
            default: TRY(a &= RangeSet({{x, y}, {y, x}})); TRY(a = RangeSet({x, y, hi(r)}));
        }
        s(a.contains(x)); s(a.contains(x, y)); s(a.intersects(y)); s(a.intersects(x, y)); s(a.isWithin(x)); s(a.isWithin(x, y)); s(a.isDisjointFrom(x, y)); s(a.isDisjointFrom(b)); s(a.contains(b)); s(a == b); s(a.cardinality()); s(a.empty()); s(a.full()); s(a.isValid()); s(a);
        s.print(a);
    }
}

void integers(Rng & r, Sink & s) {
    std::uint32_t da[8], db[8];
    unsigned ca = static_cast<unsigned>(r.range(2, 8)), cb = static_cast<unsigned>(r.range(2, 8));
    BigInteger a(da, ca), b(db, cb);
    a.setToZero(); b.setTo(static_cast<std::int64_t>(hi(r)));
    for (int i = 0; i < 10; ++i) {
        switch (r.below(8)) {
            case 0: a.setTo(hi(r)); break;
            case 1: a.setTo(static_cast<std::int64_t>(hi(r))); break;
            case 2: TRY(a.add(b)); break;
            case 3: TRY(a.subtract(b)); break;
            case 4: TRY(a.multiply(b)); break;
            case 5: TRY(a.multiplyPow2(static_cast<unsigned>(r.chance(.9) ? r.below(300) : hi(r)))); break;
            case 6: a.negate(); break;
            default: TRY(b = a);
        }
        s(a.getSign()); for (unsigned k = 0; k < a.getSize(); ++k) s.u(a.getDigits()[k]);
    }
    std::uint64_t x = hi(r), y = hi(r);
    int m = r.range(0, 32);
    s(log2(x)); s(log2(static_cast<std::uint32_t>(y))); s(mortonIndex(static_cast<std::uint32_t>(x), static_cast<std::uint32_t>(y)));
    s.u(std::get<0>(mortonIndexInverse(x))); s.u(std::get<1>(hilbertIndexInverse(x, m))); s(mortonToHilbert(x, m)); s(hilbertToMorton(y, m)); s(hilbertIndex(static_cast<std::uint32_t>(x), static_cast<std::uint32_t>(y), m));
}

typedef void (*Body)(Rng &, Sink &);

__attribute__((noinline)) void scribble(unsigned char fill, size_t n) {
    auto p = static_cast<unsigned char volatile *>(alloca(n));
    for (size_t i = 0; i < n; ++i) p[i] = fill;
}
#if defined(__SANITIZE_ADDRESS__)
constexpr bool TWICE = false;
#else
constexpr bool TWICE = true;
#endif

void drive(Ctx & c, Body body) {
    Rng start = c.rng;
    Sink s;
    if (TWICE) { ::mallopt(M_PERTURB, 0x5a); scribble(0x3f, 40000); }
    { Rng r = start; body(r, s); }
    c.eval(s.h);
    c.count("public calls in exception scope", s.calls);
    c.count("exceptions observed", s.thrown);
    if (TWICE) {
        Sink t;
        ::mallopt(M_PERTURB, 0xc3);
        scribble(0xff, 40000);
        { Rng r = start; body(r, t); }
        c.check(t.h == s.h, "answers-depend-on-memory", [&] { return "the same calls gave different answers after the unused memory was filled differently"; });
        c.count("repeated over different memory");
        ::mallopt(M_PERTURB, 0);
    }
    // Under valgrind a branch on undefined data is an error.
    if (s.h == 0x123456789abcdefull) c.count("unlikely");
}

}  // namespace

SECTION(scalar_arguments, 40000) { drive(c, scalars); }
SECTION(vector_arguments, 40000) { drive(c, vectors); }
SECTION(interval_arguments, 40000) { drive(c, intervals); }
SECTION(region_arguments, 12000) { drive(c, regions); }
SECTION(pixel_arguments, 5000) { drive(c, pixels); }
SECTION(chunk_arguments, 2000) { drive(c, chunks); }
SECTION(set_arguments, 10000) { drive(c, sets); }
SECTION(integer_arguments, 20000) { drive(c, integers); }
