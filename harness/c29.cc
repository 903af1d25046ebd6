// C29: invalid arguments raise the documented exceptions; valid ones at the limits are accepted.
#include "spec.h"
#include "pix.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "vh.h"
#include <set>
#include <climits>
using namespace vh;

namespace {

enum Outcome { OK, INVALID, RUNTIME, OTHER };
char const * outcomeName(int o) { static char const * n[] = {"accepted", "std::invalid_argument", "std::runtime_error", "another exception"}; return n[o]; }

template <typename F> Outcome attempt(F const & f) {
    try { f(); return OK; }
    catch (std::invalid_argument const &) { return INVALID; }
    catch (std::runtime_error const &) { return RUNTIME; }
    catch (std::exception const &) { return OTHER; }
}

template <typename F> void expect(vh::Ctx & c, Outcome want, std::string const & what, F const & f) {
    Outcome got = attempt(f);
    c.eval(hashBytes(what.data(), what.size()));
    c.count(want == OK ? "valid_arguments" : "invalid_arguments");
    if (got != want) c.fail("outcome:" + what.substr(0, what.find('(')), what + ": expected " + outcomeName(want) + ", observed " + outcomeName(got));
    c.sample([&] { return what + " -> " + outcomeName(got); });
}

std::string hexIdx(std::uint64_t i) { char b[40]; std::snprintf(b, sizeof b, "%#" PRIx64, i); return b; }

// A region type the library has never heard of.
struct Foreign : Region {
    std::unique_ptr<Region> clone() const override { return std::make_unique<Foreign>(); }
    Box getBoundingBox() const override { return Box::full(); }
    Box3d getBoundingBox3d() const override { return Box3d::aroundUnitSphere(); }
    Circle getBoundingCircle() const override { return Circle::full(); }
    using Region::contains;
    bool contains(UnitVector3d const &) const override { return true; }
    Relationship relate(Region const &) const override { return Relationship(0); }
    Relationship relate(Box const &) const override { return Relationship(0); }
    Relationship relate(Circle const &) const override { return Relationship(0); }
    Relationship relate(ConvexPolygon const &) const override { return Relationship(0); }
    Relationship relate(Ellipse const &) const override { return Relationship(0); }
    std::vector<std::uint8_t> encode() const override { return {}; }
};

// Is the index valid at some level?
int levelOf(int kind, std::uint64_t i) {
    for (int l = 0; l <= Pix::maxLevel(kind); ++l) if (Pix(kind, l).valid(i)) return l;
    return -1;
}

std::uint64_t hostileIndex(Rng & r, Pix const & p) {
    switch (r.below(9)) {
        case 0: return p.first();
        case 1: return p.last();
        case 2: return p.first() - 1;
        case 3: return p.last() + 1;
        case 4: return p.randomIndex(r);
        case 5: return r.u64() >> r.below(64);
        case 6: return (std::uint64_t(1) << r.below(64)) - r.below(3);
        case 7: { Pix q(p.kind, r.range(0, Pix::maxLevel(p.kind))); return r.pick({q.first(), q.last(), q.first() - 1, q.last() + 1}); }
        default: return p.randomIndex(r) ^ (std::uint64_t(1) << r.range(2 * p.level, 63));
    }
}

}  // namespace

SECTION(levels_all, 60) {
    static int const special[] = {INT_MIN, INT_MIN + 1, -65536, -256, -1, 31, 32, 33, 62, 63, 64, 255, 256, 65536, INT_MAX - 1, INT_MAX};
    int l = c.index < 16 ? special[c.index] : static_cast<int>(c.index) - 20;
    for (int k = 0; k < 3; ++k) {
        bool ok = l >= 0 && l <= Pix::maxLevel(k);
        expect(c, ok ? OK : INVALID, std::string(k == 0 ? "HtmPixelization" : k == 1 ? "Q3cPixelization" : "Mq3cPixelization") + "(" + std::to_string(l) + ")", [&] { Pix p(k, l); if (ok && p.p->universe().empty()) throw std::logic_error("no universe"); });
    }
}

SECTION(indexes, 20000) {
    Pix p = anyPix(c.rng);
    std::uint64_t i = hostileIndex(c.rng, p);
    bool mine = p.valid(i);
    int lev = levelOf(p.kind, i);
    std::string at = "(" + hexIdx(i) + ")";
    if (p.kind == 0) {
        // An HTM index says which level it belongs to, and pixel() accepts those of any level.
        expect(c, lev >= 0 ? OK : INVALID, "HTM::pixel" + at, [&] { p.p->pixel(i); });
        expect(c, lev >= 0 ? OK : INVALID, "HTM::triangle" + at, [&] { HtmPixelization::triangle(i); });
        expect(c, lev >= 0 ? OK : INVALID, "HTM::asString" + at, [&] { HtmPixelization::asString(i); });
        expect(c, lev >= 0 ? OK : INVALID, "HTM::toString" + at, [&] { p.p->toString(i); });
    } else if (p.kind == 1) {
        auto const & q = static_cast<Q3cPixelization const &>(*p.p);
        at += " of level " + std::to_string(p.level);
        expect(c, mine ? OK : INVALID, "Q3C::pixel" + at, [&] { q.pixel(i); });
        expect(c, mine ? OK : INVALID, "Q3C::quad" + at, [&] { q.quad(i); });
        expect(c, mine ? OK : INVALID, "Q3C::neighborhood" + at, [&] { q.neighborhood(i); });
        expect(c, mine ? OK : INVALID, "Q3C::toString" + at, [&] { q.toString(i); });
    } else {
        expect(c, mine ? OK : INVALID, "MQ3C::pixel" + at + " of level " + std::to_string(p.level), [&] { p.p->pixel(i); });
        expect(c, lev >= 0 ? OK : INVALID, "MQ3C::quad" + at, [&] { Mq3cPixelization::quad(i); });
        expect(c, lev >= 0 ? OK : INVALID, "MQ3C::neighborhood" + at, [&] { Mq3cPixelization::neighborhood(i); });
        expect(c, lev >= 0 ? OK : INVALID, "MQ3C::asString" + at, [&] { Mq3cPixelization::asString(i); });
        c.check(Mq3cPixelization::level(i) == lev, "level", [&] { return "MQ3C::level" + at + " is " + toStr(Mq3cPixelization::level(i)); });
    }
}

SECTION(chunkers, 400) {
    std::int64_t n, m;
    switch (c.rng.below(7)) {
        case 0: n = c.rng.range(-3, 3); m = c.rng.range(-3, 3); break;
        case 1: n = c.rng.range(1, 800); m = 648000 / n + c.rng.range(-1, 2); break;
        case 2: n = c.rng.pick({32766, 32767, 32768, 32769, 46340, 46341, 65536, 648000, 648001}); m = c.rng.range(1, 3); break;
        case 3: n = c.rng.pick({INT_MIN, -1, 0, 1, 2, 65536, 46341, INT_MAX, INT_MAX / 2 + 1}); m = c.rng.pick({INT_MIN, -1, 0, 1, 2, 3, 65536, 46341, INT_MAX, INT_MAX / 2 + 1}); break;
        case 4: n = c.rng.range(1, 200); m = c.rng.range(1, 60); break;
        case 5: m = c.rng.range(1, 800); n = std::min<std::int64_t>(32767, 648000 / m + c.rng.range(-1, 2)); break;
        default: n = static_cast<std::int32_t>(c.rng.u64() >> c.rng.below(60)); m = static_cast<std::int32_t>(c.rng.u64() >> c.rng.below(60));
    }
    std::string what = "Chunker(" + std::to_string(n) + ", " + std::to_string(m) + ")";
    bool bad = n < 1 || m < 1 || n * m > 648000 || 2 * n * n > INT_MAX;
    // With so many sub-chunks that their 32 bit identifiers might overflow, both outcomes are possible.
    bool edge = !bad && 2 * n * m * m > INT_MAX;
    if (edge) {
        Outcome o = attempt([&] { Chunker k(static_cast<std::int32_t>(n), static_cast<std::int32_t>(m)); });
        c.eval();
        c.count("edge_chunkers");
        c.check(o == OK || o == RUNTIME, "outcome:Chunker", [&] { return what + ": " + outcomeName(o); });
        return;
    }
    expect(c, bad ? RUNTIME : OK, what, [&] { Chunker k(static_cast<std::int32_t>(n), static_cast<std::int32_t>(m)); });
    if (bad || n * m > 40000 || n > 300) return;
    Chunker k(static_cast<std::int32_t>(n), static_cast<std::int32_t>(m));
    auto all = k.getAllChunks();
    std::set<std::int32_t> ids(all.begin(), all.end());
    for (int i = 0; i < 200; ++i) {
        std::int32_t id;
        switch (c.rng.below(5)) {
            case 0: id = c.rng.pick(all); break;
            case 1: id = c.rng.pick(all) + c.rng.range(-2, 2); break;
            case 2: id = static_cast<std::int32_t>(c.rng.u64()) >> c.rng.below(32); break;
            case 3: id = c.rng.pick({-1, 0, INT_MIN, INT_MAX, static_cast<std::int32_t>(2 * n * n), static_cast<std::int32_t>(2 * n * n) - 1, static_cast<std::int32_t>(-2 * n), static_cast<std::int32_t>(1 - 2 * n)}); break;
            default: id = static_cast<std::int32_t>(2 * n * c.rng.below(static_cast<std::uint64_t>(n) + 1)) + c.rng.range(-2, 2);
        }
        c.eval(mix(static_cast<std::uint64_t>(id)) ^ hashBytes(what.data(), what.size()));
        bool v = ids.count(id) != 0;
        c.count(v ? "valid_chunks" : "invalid_chunks");
        c.check(k.valid(id) == v, "valid", [&] { return what + ": valid(" + toStr(id) + ") is " + toStr(!v); });
        std::int64_t stripe = id / (2 * n);
        if (stripe < 0 || stripe >= n) {
            Outcome o = attempt([&] { k.getAllSubChunks(id); });
            c.check(o != OK, "outcome:getAllSubChunks", [&] { return what + ": getAllSubChunks accepted " + toStr(id) + ", whose stripe does not exist"; });
        }
    }
    for (std::int32_t s : {-1, INT_MIN, static_cast<std::int32_t>(n), static_cast<std::int32_t>(n) + 1, INT_MAX}) {
        Outcome o = attempt([&] { k.getChunkBoundingBox(s, 0); });
        c.check(o != OK, "outcome:getChunkBoundingBox", [&] { return what + ": getChunkBoundingBox accepted stripe " + toStr(s); });
    }
    for (std::int64_t s : {std::int64_t(-1), std::int64_t(INT_MIN), n * m, n * m + 1, std::int64_t(INT_MAX)}) {
        Outcome o = attempt([&] { k.getSubChunkBoundingBox(static_cast<std::int32_t>(s), 0); });
        c.check(o != OK, "outcome:getSubChunkBoundingBox", [&] { return what + ": getSubChunkBoundingBox accepted sub-stripe " + toStr(s); });
    }
    expect(c, OK, what + " last", [&] { k.getChunkBoundingBox(static_cast<std::int32_t>(n) - 1, 0); k.getSubChunkBoundingBox(static_cast<std::int32_t>(n * m) - 1, 0); });
}

SECTION(polygons, 12000) {
    std::vector<UnitVector3d> v;
    std::string why;
    Outcome want = INVALID;
    UnitVector3d a = anyUnit(c.rng), b = anyUnit(c.rng);
    int n = c.rng.range(0, 12);
    switch (c.rng.below(6)) {
        case 0: why = "one distinct point"; v.assign(static_cast<size_t>(n), a); break;
        case 1: why = "two distinct points"; for (int i = 0; i < n; ++i) v.push_back(c.rng.chance(.5) ? a : b); break;
        case 2: {
            why = "an antipodal pair";
            for (int i = 0; i < n + 1; ++i) v.push_back(anyUnit(c.rng));
            v.push_back(-c.rng.pick(v));
            break;
        }
        case 3: {
            why = "points around the origin";  // a slightly perturbed regular tetrahedron, plus anything
            double s = std::sqrt(1.0 / 3);
            double t[4][3] = {{s, s, s}, {s, -s, -s}, {-s, s, -s}, {-s, -s, s}};
            for (auto & x : t) v.push_back(UnitVector3d(x[0] + c.rng.uni(-.1, .1), x[1] + c.rng.uni(-.1, .1), x[2] + c.rng.uni(-.1, .1)));
            for (int i = 0; i < n; ++i) v.push_back(anyUnit(c.rng));
            break;
        }
        case 4: {
            why = "points on one great circle";  // exactly coplanar, with zeros
            int axis = c.rng.range(0, 2);
            for (int i = 0; i < n; ++i) {
                double w[3] = {c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)};
                w[axis] = 0;
                v.push_back(UnitVector3d(w[0], w[1], w[2]));
            }
            break;
        }
        default: {
            why = "points inside a cap";
            want = OK;
            LD size = c.rng.logUni(1e-6, 1.5);
            V3 ctr = V3(a).unit();
            for (auto const & x : ringAround(c.rng, ctr, size, std::max(3, n), false)) v.push_back(toUnit(x));
            for (int i = 0; i < n; ++i) v.push_back(toUnit(offset(c.rng, ctr, size * c.rng.uni())));
        }
    }
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.rng.below(i)]);
    std::string pts;
    for (auto const & x : v) pts += describe(x) + " ";
    expect(c, want, "ConvexPolygon(" + why + ": " + pts + ")", [&] { ConvexPolygon p(v); });
    expect(c, want, "convexHull(" + why + ": " + pts + ")", [&] { ConvexPolygon::convexHull(v); });
    c.count(want == OK ? "hulls_accepted" : "hulls_rejected");
}

SECTION(vectors, 20000) {
    auto comp = [&] { return c.rng.pick({0.0, -0.0, 0.0, 5e-324, -5e-324, 1e-310, 2.3e-308, 1e-160, 1.0, -1.0, 1e154, 1.7e308, -1.7e308}); };
    double x = comp(), y = comp(), z = comp();
    bool zero = x == 0 && y == 0 && z == 0;
    std::string what = "(" + str(x) + ", " + str(y) + ", " + str(z) + ")";
    expect(c, zero ? RUNTIME : OK, "normalize" + what, [&] { Vector3d v(x, y, z); v.normalize(); });
    expect(c, zero ? RUNTIME : OK, "UnitVector3d" + what, [&] { UnitVector3d v(x, y, z); (void)v; });
    expect(c, zero ? RUNTIME : OK, "UnitVector3d(Vector3d)" + what, [&] { UnitVector3d v(Vector3d(x, y, z)); (void)v; });
}

SECTION(latitudes, 20000) {
    double h = 0.5 * PI;
    double lat = c.rng.chance(.5) ? c.rng.pick({h, -h, std::nextafter(h, 9), std::nextafter(h, 0), -std::nextafter(h, 9), 0.0, -0.0, PI, -PI, 1e300, -1e300, double(INFINITY), -double(INFINITY), 5e-324, 1.6, -1.6, 90.0, 2 * PI}) : c.rng.uni(-4, 4);
    double lon = c.rng.pick({0.0, 1.0, -1.0, 7.0, 2 * PI, -1e-20, 1e10});
    bool ok = std::fabs(lat) <= h;
    std::string what = "(" + str(lon) + ", " + str(lat) + ")";
    expect(c, ok ? OK : INVALID, "LonLat" + what, [&] { LonLat p{NormalizedAngle(lon), Angle(lat)}; (void)p; });
    expect(c, ok ? OK : INVALID, "LonLat::fromRadians" + what, [&] { LonLat::fromRadians(lon, lat); });
    expect(c, ok ? OK : INVALID, "contains" + what, [&] { std::unique_ptr<Region> r = std::make_unique<Circle>(UnitVector3d::Z(), Angle(1)); r->contains(lon, lat); });
    double deg = c.rng.chance(.5) ? c.rng.pick({90.0, -90.0, 90.0000001, -90.0000001, 89.9999999, 0.0, 180.0, -91.0, 1e300, 45.0}) : c.rng.uni(-200, 200);
    expect(c, std::fabs(deg) <= 90 ? OK : INVALID, "LonLat::fromDegrees(" + str(lon) + ", " + str(deg) + ")", [&] { LonLat::fromDegrees(lon, deg); });
}

SECTION(ellipses, 20000) {
    double h = 0.5 * PI, nan = NAN, inf = INFINITY;
    auto ang = [&] { return c.rng.chance(.6) ? c.rng.pick({h, std::nextafter(h, 0), std::nextafter(h, 9), 0.0, -0.1, PI, 3.2, 1.0, 2.0, nan, 1e-10, inf, -inf}) : c.rng.uni(0, PI); };
    double a = ang(), b = ang(), o = c.rng.chance(.8) ? c.rng.uni(-10, 10) : c.rng.pick({nan, inf, -inf, 1e300, 0.0});
    bool bad = !std::isfinite(o) || std::isnan(a) || std::isnan(b) || (a < h && b >= h) || (a > h && b <= h) || (a == h && b != h);
    UnitVector3d ctr = anyUnit(c.rng);
    expect(c, bad ? INVALID : OK, "Ellipse(centre, " + str(a) + ", " + str(b) + ", " + str(o) + ")", [&] { Ellipse e(ctr, Angle(a), Angle(b), Angle(o)); });
    UnitVector3d f1 = anyUnit(c.rng), f2 = c.rng.chance(.3) ? f1 : c.rng.chance(.3) ? -f1 : anyUnit(c.rng);
    expect(c, std::isnan(a) ? INVALID : OK, "Ellipse(" + describe(f1) + ", " + describe(f2) + ", " + str(a) + ")", [&] { Ellipse e(f1, f2, Angle(a)); });
}

SECTION(arcs, 20000) {
    auto ang = [&] { return c.rng.chance(.5) ? c.rng.pick({0.0, -0.0, 2 * PI, std::nextafter(2 * PI, 0), std::nextafter(2 * PI, 9), -1e-300, 1.0, PI, -1.0, 7.0, 13.0, -13.0, 1e10}) : c.rng.uni(-8, 14); };
    double x = ang(), y = ang();
    auto norm = [](double v) { return v >= 0 && v <= 2 * PI; };
    bool certainlyBad = !(norm(x) && norm(y)) && x > y;
    // 2 pi itself is an end point whose treatment is a matter of convention
    if (x == 2 * PI || y == 2 * PI) { c.count("two_pi"); return; }
    std::string what = "NormalizedAngleInterval(" + str(x) + ", " + str(y) + ")";
    expect(c, certainlyBad ? INVALID : OK, what, [&] { NormalizedAngleInterval i{Angle(x), Angle(y)}; (void)i; });
    expect(c, certainlyBad ? INVALID : OK, "NormalizedAngleInterval::fromRadians(" + str(x) + ", " + str(y) + ")", [&] { NormalizedAngleInterval::fromRadians(x, y); });
    expect(c, certainlyBad ? INVALID : OK, "Box::fromRadians(" + str(x) + ", " + str(y) + ")", [&] { Box::fromRadians(x, -0.5, y, 0.5); });
}

SECTION(foreign_regions, 60) {
    Pix p = anyPix(c.rng, 6);
    Foreign f;
    UnionRegion u(f, Circle(UnitVector3d::X(), Angle(0.1)));
    Region const & r = c.rng.chance(.5) ? static_cast<Region const &>(f) : u;
    std::string what = p.desc() + (&r == &f ? " foreign" : " union with a foreign region");
    expect(c, RUNTIME, "envelope(" + what + ")", [&] { p.p->envelope(r, c.rng.below(10)); });
    expect(c, RUNTIME, "interior(" + what + ")", [&] { p.p->interior(r, c.rng.below(10)); });
}
