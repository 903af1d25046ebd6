// C22: concurrent const use is race free (ThreadSanitizer) and deterministic (digests).
#include <sched.h>
#include <sys/wait.h>
#include <atomic>
#include <thread>
#include <iostream>
#include "codecgen.h"
#include "pix.h"
#include "spec.h"
#include "lsst/sphgeom/BigInteger.h"
#include "lsst/sphgeom/codec.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/RangeSet.h"
using namespace lsst::sphgeom;
using namespace vh;

namespace {

struct Digest {
    std::uint64_t h = 1;
    void u(std::uint64_t x) { h = mix(h ^ x); }
    void d(double x) { u(x != x ? 0x7ff8000000000000ull : bits(x)); }
    void s(std::string const & x) { u(hashBytes(x.data(), x.size())); }
    void e(std::vector<std::uint8_t> const & x) { u(hashBytes(x.data(), x.size())); }
    void v(Vector3d const & x) { d(x.x()); d(x.y()); d(x.z()); }
    void v(UnitVector3d const & x) { d(x.x()); d(x.y()); d(x.z()); }
    void r(RangeSet const & x) { u(x.size()); for (auto const & t : x) { u(std::get<0>(t)); u(std::get<1>(t)); } }
    void r(Region const & x) { e(x.encode()); }
    void i(Interval1d const & x) { d(x.getA()); d(x.getB()); }
    void b(Box3d const & x) { i(x.x()); i(x.y()); i(x.z()); }
};

struct World {
    std::vector<RegionPtr> regions;
    std::vector<Pix> pix;
    std::vector<Chunker> chunkers;
    std::vector<RangeSet> sets;
    std::vector<std::vector<std::uint8_t>> encodings;
};

RangeSet makeSet(Rng & r) {
    RangeSet s;
    int n = r.pick({0, 1, 3, 20, 200});
    for (int i = 0; i < n; ++i) { std::uint64_t a = r.below(100000); s.insert(a, a + 1 + r.below(200)); }
    if (r.chance(.2)) s.complement();
    return s;
}

World makeWorld(std::uint64_t seed) {
    Rng r(seed);
    World w;
    UnitVector3d c = anyUnit(r);
    double size = anySize(r);
    for (int i = 0; i < 10; ++i) {
        w.regions.push_back(r.chance(.5) ? makeRegion(r, i % 6, nearUnit(r, c), size * r.uni(.3, 2)) : anyRegion(r, i % 6));
        w.encodings.push_back(w.regions.back()->encode());
    }
    for (int k = 0; k < 3; ++k) w.pix.push_back(Pix(k, r.range(0, 10)));
    w.chunkers.push_back(Chunker(r.range(1, 30), r.range(1, 5)));
    w.chunkers.push_back(Chunker(85, 12));
    for (int i = 0; i < 4; ++i) w.sets.push_back(makeSet(r));
    return w;
}

// The same objects, built again from what is known about them.
World copyOf(std::uint64_t seed) { return makeWorld(seed); }

struct Task { int kind; std::uint64_t seed; };
constexpr int KINDS = 24;

UnitVector3d pt(Rng & r, Region const & a) {
    if (r.chance(.5)) return anyUnit(r);
    Circle c = a.getBoundingCircle();
    if (c.isEmpty() || c.isFull()) return anyUnit(r);
    return toUnit(offset(r, V3(c.getCenter()), c.getOpeningAngle().asRadians() * r.uni(0, 1.1)));
}

std::uint64_t run(World const & w, Task const & t) {
    Rng r(t.seed);
    Digest g;
    Region const & a = *w.regions[r.below(w.regions.size())];
    Region const & b = *w.regions[r.below(w.regions.size())];
    Pix const & p = w.pix[r.below(w.pix.size())];
    Chunker const & k = w.chunkers[r.below(w.chunkers.size())];
    RangeSet const & s = w.sets[r.below(w.sets.size())];
    RangeSet const & q = w.sets[r.below(w.sets.size())];
    try {
        switch (t.kind) {
            case 0:
                for (int i = 0; i < 8; ++i) {
                    auto x = pt(r, a);
                    g.u(a.contains(x));
                    g.u(a.contains(x.x(), x.y(), x.z()));
                    LonLat l(x);
                    g.u(a.contains(l.getLon().asRadians(), l.getLat().asRadians()));
                }
                break;
            case 1:
                g.u(a.relate(b).to_ulong());
                g.u(b.relate(a).to_ulong());
                break;
            case 2:
                g.r(a.getBoundingBox());
                g.r(a.getBoundingCircle());
                g.b(a.getBoundingBox3d());
                break;
            case 3: g.r(a); g.r(*a.clone()); break;
            case 4: {
                std::ostringstream o;
                if (auto x = dynamic_cast<Box const *>(&a)) o << *x;
                else if (auto x = dynamic_cast<Circle const *>(&a)) o << *x;
                else if (auto x = dynamic_cast<Ellipse const *>(&a)) o << *x;
                else if (auto x = dynamic_cast<ConvexPolygon const *>(&a)) o << *x;
                o << s << anyUnit(r) << Angle(r.uni()) << LonLat(anyUnit(r)) << a.getBoundingBox3d();
                g.s(o.str());
                break;
            }
            case 5:
                for (int i = 0; i < 4; ++i) {
                    auto x = pt(r, a);
                    std::uint64_t n = p.p->index(x);
                    g.u(n);
                    g.s(p.p->toString(n));
                    g.r(*p.p->pixel(n));
                }
                break;
            case 6: {
                // keep the number of pixels in bounds
                Circle c = a.getBoundingCircle();
                size_t cap = (p.level > 4 && (c.isFull() || c.getOpeningAngle().asRadians() * (1 << p.level) > 30)) ? 1 + r.below(40) : r.pick<size_t>({0, 0, 5, 40});
                g.r(p.p->envelope(a, cap));
                if (cap) g.r(p.p->interior(a, cap));
                else g.r(p.p->interior(a));
                break;
            }
            case 7: {
                std::uint64_t n = p.randomIndex(r);
                if (p.kind) for (auto x : p.neighborhood(n)) g.u(x);
                { auto q = p.polygon(n); for (auto const & x : q.getVertices()) g.v(x); }
                g.r(p.p->universe());
                if (p.kind == 0) { g.u(HtmPixelization::level(n)); g.s(HtmPixelization::asString(n)); }
                if (p.kind == 2) { g.u(Mq3cPixelization::level(n)); g.s(Mq3cPixelization::asString(n)); }
                break;
            }
            case 8: {
                Region const & x = r.chance(.5) ? a : static_cast<Region const &>(Circle(anyUnit(r), Angle(r.uni(0, .2))));
                auto v = k.getChunksIntersecting(x);
                g.u(v.size());
                for (auto i : v) g.u(i);
                Circle small(anyUnit(r), Angle(r.uni(0, .05)));
                for (auto const & i : k.getSubChunksIntersecting(small)) { g.u(i.chunkId); for (auto j : i.subChunkIds) g.u(j); }
                break;
            }
            case 9: {
                auto v = k.getAllChunks();
                g.u(v.size());
                std::int32_t id = v[r.below(v.size())];
                g.u(k.valid(id)); g.u(k.getStripe(id));
                for (auto i : k.getAllSubChunks(id)) g.u(i);
                g.r(k.getChunkBoundingBox(k.getStripe(id), k.getChunk(id, k.getStripe(id))));
                break;
            }
            case 10: {
                std::uint64_t x = r.below(110000), y = x + r.below(500);
                g.u(s.contains(x)); g.u(s.contains(x, y)); g.u(s.intersects(x, y)); g.u(s.isWithin(x, y)); g.u(s.isDisjointFrom(x, y));
                g.u(s.contains(q)); g.u(s.intersects(q)); g.u(s.isWithin(q)); g.u(s == q); g.u(s.cardinality()); g.u(s.empty()); g.u(s.full()); g.u(s.isValid());
                g.r(s);
                for (auto i = s.beginc(); i != s.endc(); ++i) { g.u(std::get<0>(*i)); g.u(std::get<1>(*i)); }
                break;
            }
            case 11:
                g.r(s & q); g.r(s | q); g.r(s - q); g.r(s ^ q); g.r(~s); g.r(s.simplified(r.below(12))); g.r(s.scaled(3));
                break;
            case 12: {
                // a private copy is modified: the shared original must not notice
                RangeSet x(s);
                for (int i = 0; i < 5; ++i) { std::uint64_t n = r.below(100000); if (i % 2) x.insert(n, n + 300); else x.erase(n, n + 300); }
                g.r(x);
                x = q; x.complement(); g.r(x); x &= s; g.r(x);
                g.r(s);
                break;
            }
            case 13: {
                for (int i = 0; i < 6; ++i) {
                    auto x = anyUnit(r), y = nearUnit(r, x), z = r.chance(.5) ? nearUnit(r, y) : anyUnit(r);
                    g.u(orientation(x, y, z)); g.u(orientationExact(x, y, z)); g.u(orientationX(y, z)); g.u(orientationY(y, z)); g.u(orientationZ(y, z));
                    g.v(x.robustCross(y)); g.d(getMinSquaredChordLength(x, y, z, UnitVector3d(y.robustCross(z)))); g.d(getMaxSquaredChordLength(x, y, z, UnitVector3d(y.robustCross(z))));
                    g.v(getWeightedCentroid(x, y, z));
                    std::uint32_t h = r.u64(), l = r.u64();
                    g.u(mortonIndex(h, l)); g.u(hilbertIndex(h, l, r.range(1, 32))); g.u(mortonToHilbert(r.u64() >> 4, 30)); g.u(log2(r.u64() | 1));
                }
                break;
            }
            case 14: {
                auto const & e = w.encodings[r.below(w.encodings.size())];
                g.r(*Region::decode(e));
                break;
            }
            case 15: {
                std::vector<UnitVector3d> v;
                auto x = anyUnit(r);
                for (int i = 0, n = r.range(1, 12); i < n; ++i) v.push_back(r.chance(.9) ? toUnit(offset(r, V3(x), r.uni(0, 1.2))) : anyUnit(r));
                g.r(ConvexPolygon::convexHull(v));
                break;
            }
            case 16: {
                double rad = r.uni(-.3, .3);
                if (auto x = dynamic_cast<Box const *>(&a)) {
                    g.d(x->getArea()); g.r(x->dilatedBy(Angle(rad))); g.r(x->erodedBy(Angle(rad))); g.d(x->getWidth().asRadians());
                    g.d(x->getCenter().getLon().asRadians());
                    if (auto y = dynamic_cast<Box const *>(&b)) { g.r(x->clippedTo(*y)); g.r(x->expandedTo(*y)); }
                } else if (auto x = dynamic_cast<Circle const *>(&a)) {
                    g.d(x->getArea()); g.r(x->dilatedBy(Angle(rad))); g.r(x->complemented()); g.d(x->getOpeningAngle().asRadians()); g.v(x->getCenter());
                    if (auto y = dynamic_cast<Circle const *>(&b)) { g.r(x->clippedTo(*y)); g.r(x->expandedTo(*y)); }
                } else if (auto x = dynamic_cast<Ellipse const *>(&a)) {
                    g.r(x->complemented()); g.v(x->getCenter()); g.v(x->getF1()); g.v(x->getF2()); g.d(x->getAlpha().asRadians()); g.d(x->getBeta().asRadians());
                    for (int i = 0; i < 3; ++i) g.v(x->getTransformMatrix().getRow(i));
                } else if (auto x = dynamic_cast<ConvexPolygon const *>(&a)) {
                    g.v(x->getCentroid()); for (auto const & y : x->getVertices()) g.v(y);
                    g.u(x->contains(b)); g.u(x->isDisjointFrom(b)); g.u(x->intersects(b)); g.u(x->isWithin(b));
                } else if (auto x = dynamic_cast<CompoundRegion const *>(&a)) {
                    g.r(x->getOperand(0)); g.r(x->getOperand(1)); g.u(x->getOperand(0).relate(b).to_ulong());
                }
                break;
            }
            case 17:
                g.r(Circle::full()); g.r(Circle::empty()); g.r(Ellipse::full()); g.r(Ellipse::empty()); g.r(Box::full()); g.r(Box::empty());
                g.b(Box3d::full()); g.b(Box3d::empty()); g.b(Box3d::aroundUnitSphere()); g.i(Interval1d::full());
                g.v(UnitVector3d::X()); g.v(UnitVector3d::Y()); g.v(UnitVector3d::Z());
                g.d(Box::allLatitudes().getA().asRadians()); g.d(Box::allLongitudes().getB().asRadians());
                g.d(AngleInterval::full().getA().asRadians()); g.d(NormalizedAngleInterval::empty().getA().asRadians());
                break;
            case 18: {
                // rejected arguments, concurrently
                for (int i = 0; i < 4; ++i)
                    try {
                        switch (r.below(6)) {
                            case 0: HtmPixelization(r.range(25, 90)); break;
                            case 1: p.polygon(~std::uint64_t(0) - r.below(9)); break;
                            case 2: Chunker(-1, 3); break;
                            case 3: Region::decode(w.encodings[r.below(w.encodings.size())].data(), r.below(4)); break;
                            case 4: ConvexPolygon(std::vector<UnitVector3d>(r.below(3), anyUnit(r))); break;
                            default: Vector3d(0, 0, 0).normalize();
                        }
                        g.u(7);
                    } catch (std::exception const & e) { g.s(e.what()); }
                break;
            }
            case 19:
                for (int i = 0; i < 6; ++i) {
                    Vector3d x(finiteDouble(r), finiteDouble(r), finiteDouble(r));
                    if (x.isZero()) continue;
                    UnitVector3d y(x);
                    g.v(y); LonLat l(y); g.d(l.getLon().asRadians()); g.d(l.getLat().asRadians()); g.v(UnitVector3d(l));
                    g.v(UnitVector3d::northFrom(y)); g.v(UnitVector3d::orthogonalTo(y)); g.v(y.rotatedAround(anyUnit(r), Angle(r.uni(0, 6))));
                    g.d(NormalizedAngle(r.uni(-100, 100)).asRadians());
                }
                break;
            case 20: {
                // angles, intervals, boxes and matrices
                std::ostringstream o;
                for (int i = 0; i < 3; ++i) {
                    auto x = anyUnit(r), y = nearUnit(r, x);
                    LonLat l(x), m(y);
                    NormalizedAngle n(l, m), n2(x, y), n3(r.uni(0, 7));
                    g.d(n.asRadians()); g.d(n2.asDegrees()); g.d(NormalizedAngle::between(n3, n2).asRadians()); g.d(NormalizedAngle::center(n3, n).asRadians());
                    g.d(n3.getAngleTo(n).asRadians()); g.d(LonLat::latitudeOf(x).asRadians()); g.d(LonLat::longitudeOf(x).asRadians());
                    g.d(LonLat::fromDegrees(r.uni(0, 360), r.uni(-90, 90)).getLat().asRadians()); g.u(Angle(r.uni(-9, 9)).isNormalized());
                    Box3d u = a.getBoundingBox3d(), v = b.getBoundingBox3d();
                    g.b(u.clippedTo(v)); g.b(u.expandedTo(v)); g.b(u.dilatedBy(r.uni())); g.b(u.erodedBy(r.uni(0, .1))); g.u(u.relate(v).to_ulong()); g.u(u.contains(x)); g.u(u.intersects(v)); g.v(u.getCenter());
                    g.d(u.getWidth()); g.d(u.getHeight()); g.d(u.getDepth()); g.u(u == v); g.u(u.isWithin(v));
                    Interval1d ix(r.uni(-1, 1), r.uni(-1, 1)), iy = u.x();
                    g.i(ix.clippedTo(iy)); g.i(ix.expandedTo(iy)); g.i(ix.dilatedBy(.1)); g.u(ix.relate(iy).to_ulong()); g.u(iy.relate(ix.getA()).to_ulong()); g.d(ix.getCenter()); g.d(ix.getSize());
                    AngleInterval ax(Angle(r.uni(-1, 1)), Angle(r.uni(-1, 1))), ay = a.getBoundingBox().getLat();
                    g.d(ax.clippedTo(ay).getA().asRadians()); g.d(ax.expandedTo(ay).getB().asRadians()); g.u(ax.relate(ay).to_ulong()); g.d(ay.getCenter().asRadians());
                    NormalizedAngleInterval nx = NormalizedAngleInterval::fromRadians(r.uni(0, 6), r.uni(0, 6)), ny = a.getBoundingBox().getLon(), nz = b.getBoundingBox().getLon();
                    for (auto const & z : {nx.clippedTo(ny), nx.expandedTo(ny), ny.expandedTo(nz), ny.clippedTo(nz), nx.dilatedBy(Angle(.1)), ny.erodedBy(Angle(.1)), ny.expandedTo(n3)}) { g.d(z.getA().asRadians()); g.d(z.getB().asRadians()); }
                    g.u(nx.relate(ny).to_ulong()); g.u(ny.relate(nz).to_ulong()); g.u(ny.contains(n3)); g.u(nx.intersects(ny)); g.u(nx.isWithin(ny)); g.u(ny.wraps()); g.d(ny.getSize().asRadians()); g.d(ny.getCenter().asRadians());
                    Matrix3d f(x(0), x(1), x(2), y(0), y(1), y(2), r.uni(), r.uni(), r.uni()), h = f.inverse() * f + f.transpose() - f.cwiseProduct(f);
                    for (int j = 0; j < 3; ++j) { g.v(h.getRow(j)); g.v(h.getColumn(j)); }
                    g.v(h * x); g.d(h.inner(f)); g.d(h.getNorm()); g.d(f.getSquaredNorm());
                    Vector3d q3 = x.cross(y) + x.cwiseProduct(y) * x.dot(y);
                    g.v(q3); g.d(q3.getNorm()); g.d(q3.getSquaredNorm()); g.u(q3.isNormalized()); g.v(q3.rotatedAround(x, Angle(r.uni(-4, 4)))); g.v(UnitVector3d::orthogonalTo(x, y));
                    o << u << ix << ax << nx << h << q3 << x << l << n3;
                }
                g.s(o.str());
                break;
            }
            case 21: {
                // curves, big integers, and functions of latitudes and chords
                for (int i = 0; i < 6; ++i) {
                    std::uint64_t x = r.u64(), y = r.u64();
                    int m = r.range(1, 32);
                    auto z = mortonIndexInverse(x);
                    g.u(std::get<0>(z)); g.u(std::get<1>(z));
                    z = hilbertIndexInverse(m == 32 ? x : x & ((std::uint64_t(1) << (2 * m)) - 1), m);
                    g.u(std::get<0>(z)); g.u(std::get<1>(z));
                    g.u(hilbertToMorton(x >> (64 - 2 * m), m)); g.u(log2(static_cast<std::uint32_t>(y) | 1));
                    std::uint32_t db[16], eb[16];
                    BigInteger d(db, 16), e(eb, 16);
                    d.setTo(x); e.setTo(static_cast<std::int64_t>(y));
                    d.multiply(e); d.multiplyPow2(static_cast<unsigned>(r.range(0, 70))); d.subtract(e); d.add(e); d.negate();
                    g.u(d.getSize()); g.u(static_cast<std::uint64_t>(d.getSign() + 1));
                    for (unsigned j = 0; j < d.getSize(); ++j) g.u(d.getDigits()[j]);
                    Angle u(r.uni(-1.5, 1.5)), v(r.uni(-1.5, 1.5));
                    g.d(getMinAngleToCircle(u, v).asRadians()); g.d(getMaxAngleToCircle(u, v).asRadians()); g.d(Box::halfWidthForCircle(Angle(r.uni(0, 1)), u).asRadians());
                    g.d(Circle::squaredChordLengthFor(Angle(r.uni(0, 3)))); g.d(Circle::openingAngleFor(r.uni(0, 4)).asRadians());
                    std::vector<std::uint8_t> bytes;
                    encodeU64(x, bytes); encodeDouble(r.uni(), bytes);
                    g.e(bytes); g.u(decodeU64(bytes.data())); g.d(decodeDouble(bytes.data() + 8));
                    g.u(invert(a.relate(b)).to_ulong());
                }
                break;
            }
            case 22: {
                // remaining members of shared objects
                std::int32_t st = static_cast<std::int32_t>(r.below(static_cast<std::uint64_t>(k.getNumStripes()))) * k.getNumSubStripesPerStripe();
                g.r(k.getSubChunkBoundingBox(st, 0)); g.u(static_cast<std::uint64_t>(k.getNumStripes()));
                g.r(s.intersection(q)); g.r(s.join(q)); g.r(s.difference(q)); g.r(s.symmetricDifference(q)); g.r(s.complemented()); g.u(s != q); g.u(s.size()); g.u(s.max_size());
                for (auto i = s.cbegin(); i != s.cend(); ++i) g.u(std::get<1>(*i));
                { RangeSet copy(s), moved(std::move(copy)); copy = q; swap(copy, moved); g.r(copy); g.r(moved); }
                if (auto x = dynamic_cast<Ellipse const *>(&a)) { g.d(x->getGamma().asRadians()); g.u(x->isCircle()); g.u(x->isGreatCircle()); g.u(x->isEmpty()); g.u(x->isFull()); }
                if (auto x = dynamic_cast<Circle const *>(&a)) { g.d(x->getSquaredChordLength()); g.u(x->isEmpty()); g.u(x->isFull()); }
                if (auto x = dynamic_cast<Box const *>(&a)) { g.d(x->getHeight().asRadians()); g.u(x->isEmpty()); g.u(x->isFull()); g.u(x->contains(LonLat(anyUnit(r)))); }
                for (auto const & x : w.regions) { g.u(x->contains(pt(r, b))); g.r(*x->clone()); }
                break;
            }
            default: {
                g.u(Region::getRegions(a).size());
                for (auto const & x : Region::getRegions(a)) g.r(*x);
                UnionRegion un(a, b);
                IntersectionRegion in(a, b);
                auto x = pt(r, a);
                g.u(un.contains(x)); g.u(in.contains(x)); g.r(un); g.r(in);
            }
        }
    } catch (std::exception const & e) {
        g.s(typeid(e).name());
        g.s(e.what());
    }
    return g.h;
}

char const * kindNames[KINDS] = {"contains", "relate", "bounds", "encode/clone", "stream output", "index/pixel", "envelope/interior", "pixel geometry",
    "chunk queries", "chunk enumeration", "range set queries", "range set operations", "modify private copy", "free functions", "decode", "hull",
    "type-specific members", "constants", "rejections", "vectors", "angles, intervals and matrices", "curves and integers", "further members", "compounds"};

struct Log { std::vector<std::uint32_t> tickets; std::vector<std::uint64_t> digests; };

// Runs the tasks of each thread; worlds[i] is what thread i queries, or null if it makes its own.
void runThreads(std::vector<World const *> const & worlds, std::vector<std::uint64_t> const & ownSeeds, std::vector<std::vector<Task>> const & tasks,
                std::vector<Log> & logs, std::uint64_t seed) {
    size_t n = tasks.size();
    logs.resize(n);
    std::atomic<size_t> ready{0};
    std::atomic<std::uint32_t> ticket{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
            Rng r(mix(seed + i));
            Log & l = logs[i];
            l.tickets.reserve(tasks[i].size());
            l.digests.reserve(tasks[i].size());
            // Relaxed operations, so that the harness orders nothing.
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) sched_yield();
            std::unique_ptr<World> own;
            World const * w = worlds[i];
            if (!w) { own = std::make_unique<World>(makeWorld(ownSeeds[i])); w = own.get(); }
            for (auto const & t : tasks[i]) {
                int y = static_cast<int>(r.below(8));
                if (y == 0) sched_yield();
                else if (y == 1) ::usleep(static_cast<unsigned>(r.below(60)));
                l.tickets.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                l.digests.push_back(run(*w, t));
            }
        });
    for (auto & t : ts) t.join();
}

std::uint64_t interleaving(std::vector<Log> const & logs) {
    std::vector<std::pair<std::uint32_t, std::uint32_t>> v;
    for (size_t i = 0; i < logs.size(); ++i) for (auto t : logs[i].tickets) v.push_back({t, static_cast<std::uint32_t>(i)});
    std::sort(v.begin(), v.end());
    std::uint64_t h = 5;
    for (auto const & x : v) h = mix(h ^ x.second);
    return h;
}

std::uint64_t switches(std::vector<Log> const & logs) {
    std::vector<std::pair<std::uint32_t, std::uint32_t>> v;
    for (size_t i = 0; i < logs.size(); ++i) for (auto t : logs[i].tickets) v.push_back({t, static_cast<std::uint32_t>(i)});
    std::sort(v.begin(), v.end());
    std::uint64_t n = 0;
    for (size_t i = 1; i < v.size(); ++i) n += v[i].second != v[i - 1].second;
    return n;
}

// Runs f in a child process and returns the 64-bit numbers it sends. A crash of the child is a crash of this process.
std::vector<std::uint64_t> inChild(std::function<std::vector<std::uint64_t>()> const & f) {
    int fd[2];
    if (::pipe(fd)) std::abort();
    std::fflush(nullptr);
    pid_t pid = ::fork();
    if (pid < 0) std::abort();
    if (pid == 0) {
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        ::close(fd[0]);
        auto v = f();
        char const * p = reinterpret_cast<char const *>(v.data());
        size_t n = v.size() * 8;
        while (n) { ssize_t k = ::write(fd[1], p, n); if (k <= 0) ::_exit(9); p += k; n -= k; }
        ::_exit(0);
    }
    ::close(fd[1]);
    std::vector<std::uint64_t> out;
    std::string buf;
    char b[65536];
    for (ssize_t k; (k = ::read(fd[0], b, sizeof b)) > 0;) buf.append(b, static_cast<size_t>(k));
    ::close(fd[0]);
    int st = 0;
    ::waitpid(pid, &st, 0);
    if (st != 0) { std::fprintf(stderr, "child ended with status %d\n", st); std::abort(); }
    out.resize(buf.size() / 8);
    std::memcpy(out.data(), buf.data(), out.size() * 8);
    return out;
}

std::vector<std::vector<Task>> makeTasks(Rng & r, size_t threads, size_t n, bool same) {
    // Threads run permutations of the same tasks (same) or different ones, some kinds more than others.
    std::vector<Task> base;
    int focus = r.range(0, KINDS - 1);
    for (size_t i = 0; i < n; ++i) base.push_back({r.chance(.5) ? r.range(0, KINDS - 1) : focus, r.u64()});
    std::vector<std::vector<Task>> out;
    for (size_t t = 0; t < threads; ++t) {
        auto v = base;
        if (!same) for (auto & x : v) x.seed = r.u64();
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
        out.push_back(v);
    }
    return out;
}

}  // namespace

// The process has never used the library: whatever is initialised lazily is initialised by racing threads.
SECTION(firstuse, 260) {
    size_t threads = static_cast<size_t>(c.rng.range(2, 6));
    auto tasks = makeTasks(c.rng, threads, 12, c.rng.chance(.5));
    // in one third of the cases every thread starts with the same kind of task
    if (c.rng.chance(.34)) { int k = c.rng.range(0, KINDS - 1); for (auto & v : tasks) v[0].kind = k; }
    std::vector<std::uint64_t> seeds;
    bool shared = c.rng.chance(.4);
    std::uint64_t s0 = c.rng.u64(), ys = c.rng.u64();
    for (size_t i = 0; i < threads; ++i) seeds.push_back(shared ? s0 : c.rng.u64());
    auto conc = inChild([&] {
        std::vector<World const *> ws(threads, nullptr);
        World w;
        if (shared) { w = makeWorld(s0); ws.assign(threads, &w); }
        std::vector<Log> logs;
        runThreads(ws, seeds, tasks, logs, ys);
        std::vector<std::uint64_t> out = {interleaving(logs), switches(logs)};
        for (auto const & l : logs) out.insert(out.end(), l.digests.begin(), l.digests.end());
        return out;
    });
    auto seq = inChild([&] {
        std::vector<std::uint64_t> out = {0, 0};
        for (size_t i = 0; i < threads; ++i) {
            World w = makeWorld(seeds[i]);
            for (auto const & t : tasks[i]) out.push_back(run(w, t));
        }
        return out;
    });
    if (conc.size() != seq.size()) { c.fail("first-use-missing-results", "a child returned too few results"); return; }
    size_t n = 2;
    for (size_t i = 0; i < threads; ++i)
        for (auto const & t : tasks[i]) {
            c.eval();
            c.check(conc[n] == seq[n], "first-use-differs", [&] {
                return "thread " + std::to_string(i) + ": " + kindNames[t.kind] + " (seed " + std::to_string(t.seed) + ") gives another result in concurrent first use than in a single thread";
            });
            ++n;
        }
    c.eval(conc[0]);
    c.count("thread switches observed", conc[1]);
    c.count("tasks run concurrently at first use", n - 2);
}

SECTION(shared, 300) {
    size_t threads = static_cast<size_t>(c.rng.range(3, 8));
    std::uint64_t ws = c.rng.u64();
    World const w = makeWorld(ws);
    auto tasks = makeTasks(c.rng, threads, 40, c.rng.chance(.7));
    std::vector<std::vector<std::uint8_t>> before;
    for (auto const & r : w.regions) before.push_back(r->encode());
    std::vector<Log> logs;
    runThreads(std::vector<World const *>(threads, &w), std::vector<std::uint64_t>(threads, 0), tasks, logs, c.rng.u64());
    // the reference: the same tasks on objects nobody else has used
    World const fresh = copyOf(ws);
    std::map<std::pair<int, std::uint64_t>, std::uint64_t> expected;
    for (size_t i = 0; i < threads; ++i)
        for (size_t j = 0; j < tasks[i].size(); ++j) {
            auto const & t = tasks[i][j];
            auto key = std::make_pair(t.kind, t.seed);
            auto it = expected.find(key);
            if (it == expected.end()) it = expected.emplace(key, run(fresh, t)).first;
            c.eval();
            c.check(logs[i].digests[j] == it->second, "shared-differs", [&] {
                return "thread " + std::to_string(i) + ": " + kindNames[t.kind] + " (seed " + std::to_string(t.seed) + ") gives another result on a shared object than on a private one";
            });
            c.count(kindNames[t.kind]);
        }
    for (size_t i = 0; i < w.regions.size(); ++i)
        c.check(w.regions[i]->encode() == before[i], "shared-changed", [&] { return "queries changed " + describe(*w.regions[i]); });
    c.eval(interleaving(logs));
    c.count("thread switches observed", switches(logs));
    c.sample([&] { return std::to_string(threads) + " threads, " + std::to_string(switches(logs)) + " switches"; });
}

// Queries interleaved with modifications by one thread: an answer depends only on the current value of the object.
SECTION(histories, 700) {
    Rng & r = c.rng;
    World w = makeWorld(r.u64());
    for (int step = 0; step < 60; ++step) {
        size_t i = r.below(w.regions.size());
        Region & a = *w.regions[i];
        Region const & b = *w.regions[r.below(w.regions.size())];
        double x = r.pick({r.uni(-.5, .5), r.logUni(1e-9, 1), 0.0, -1e-3});
        switch (r.below(5)) {
            case 0:
                if (auto p = dynamic_cast<Box *>(&a)) {
                    switch (r.below(5)) {
                        case 0: p->dilateBy(Angle(x)); break;
                        case 1: p->erodeBy(Angle(x), Angle(x / 2)); break;
                        case 2: if (auto q = dynamic_cast<Box const *>(&b)) p->expandTo(*q); break;
                        case 3: if (auto q = dynamic_cast<Box const *>(&b)) p->clipTo(*q); break;
                        default: p->expandTo(LonLat(anyUnit(r)));
                    }
                } else if (auto p = dynamic_cast<Circle *>(&a)) {
                    switch (r.below(6)) {
                        case 0: p->dilateBy(Angle(x)); break;
                        case 1: p->erodeBy(Angle(x)); break;
                        case 2: if (auto q = dynamic_cast<Circle const *>(&b)) p->expandTo(*q); break;
                        case 3: if (auto q = dynamic_cast<Circle const *>(&b)) p->clipTo(*q); break;
                        case 4: p->complement(); break;
                        default: p->expandTo(anyUnit(r));
                    }
                } else if (auto p = dynamic_cast<Ellipse *>(&a)) p->complement();
                break;
            case 1: {
                // assignment, copying and moving, from an object of the same type
                auto src = makeRegion(r, r.range(0, 5), anyUnit(r), anySize(r));
                bool move = r.chance(.5);
#define ASSIGN(T) if (auto p = dynamic_cast<T *>(&a)) if (auto q = dynamic_cast<T *>(src.get())) { if (move) *p = std::move(*q); else *p = *q; c.count("assignments"); }
                ASSIGN(Box) ASSIGN(Circle) ASSIGN(Ellipse) ASSIGN(ConvexPolygon)
                break;
            }
            case 2: {
                RangeSet & s = w.sets[r.below(w.sets.size())];
                std::uint64_t n = r.below(100000);
                switch (r.below(6)) {
                    case 0: s.insert(n, n + r.below(5000)); break;
                    case 1: s.erase(n, n + r.below(5000)); break;
                    case 2: s.complement(); break;
                    case 3: s &= w.sets[r.below(w.sets.size())]; break;
                    case 4: s = w.sets[r.below(w.sets.size())]; break;
                    default: s.swap(w.sets[r.below(w.sets.size())]);
                }
                break;
            }
            default: {
                Task t{r.range(0, KINDS - 1), r.u64()};
                // The same values in objects without a history.
                World f;
                for (auto const & y : w.regions) { f.encodings.push_back(y->encode()); f.regions.push_back(Region::decode(f.encodings.back())); }
                w.encodings = f.encodings;
                for (auto const & y : w.pix) f.pix.push_back(Pix(y.kind, y.level));
                for (auto const & y : w.chunkers) f.chunkers.push_back(Chunker(y.getNumStripes(), y.getNumSubStripesPerStripe()));
                for (auto const & y : w.sets) { RangeSet s; for (auto const & z : y) s.insert(std::get<0>(z), std::get<1>(z)); f.sets.push_back(std::move(s)); }
                std::uint64_t d1 = run(w, t), d2 = run(f, t), d3 = run(w, t);
                c.eval(mix(d1 ^ t.seed));
                c.check(d1 == d2, "history-differs", [&] { return std::string(kindNames[t.kind]) + " depends on the history of the objects (seed " + std::to_string(t.seed) + ")"; });
                c.check(d1 == d3, "repeat-differs", [&] { return std::string(kindNames[t.kind]) + " gives another answer when repeated (seed " + std::to_string(t.seed) + ")"; });
            }
        }
    }
}
