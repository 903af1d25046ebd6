// C11: envelopes contain, and interiors are contained in, the pixels of a region.
#include "pix.h"
#include "spec.h"
using namespace vh;

namespace {
std::string hex(std::uint64_t u) { char b[24]; std::snprintf(b, sizeof b, "0x%" PRIx64, u); return b; }

bool has(RangeSet const & s, std::uint64_t i) { return s.contains(i); }

// True if u is within rounding of a pixel of the envelope. Pixel corners are rounded, so a point
// next to an edge can lie on one side of it according to index() and on the other according to the
// corners. Such a point does not decide anything; others of the region do.
bool atEdge(Pix const & p, RangeSet const & env, UnitVector3d const & u) {
    V3 v(u), a = v.cross(std::fabs(u.x()) < 0.6 ? V3(1, 0, 0) : V3(0, 1, 0)).unit(), b = v.cross(a);
    for (int k = 0; k < 16; ++k) {
        LD t = k * 3.14159265358979323846L / 8, e = k % 2 ? 1.5e-15L : 4e-16L;
        if (env.contains(p.p->index(toUnit((v + a * (e * cosl(t)) + b * (e * sinl(t))).unit())))) return true;
    }
    return false;
}

// A bound on how far a region is from p, from below, as approximated by the pixel finder.
LD apart(Region const & reg, V3 p) {
    if (auto q = dynamic_cast<Ellipse const *>(&reg)) { Circle b = q->getBoundingCircle(); return -margin(b, p); }
    if (auto q = dynamic_cast<UnionRegion const *>(&reg)) return std::min(apart(q->getOperand(0), p), apart(q->getOperand(1), p));
    if (auto q = dynamic_cast<IntersectionRegion const *>(&reg)) return std::max(apart(q->getOperand(0), p), apart(q->getOperand(1), p));
    return -margin(reg, p);
}

void examine(Ctx & c, Spec const & s, Pix const & p, size_t cap) {
    Rng & r = c.rng;
    Region const & reg = *s.region;
    c.eval(hashBytes(s.desc.data(), s.desc.size()) ^ mix(static_cast<std::uint64_t>(p.kind * 64 + p.level) + cap * 4096));
    auto msg = [&] { return p.desc() + " cap " + std::to_string(cap) + " of " + s.desc; };
    RangeSet env = p.p->envelope(reg, cap), inn = p.p->interior(reg, cap), uni = p.p->universe();
    c.check(cap == 0 || env.size() <= cap, "envelope-cap", [&] { return msg() + ": " + std::to_string(env.size()) + " ranges"; });
    c.check(cap == 0 || inn.size() <= cap, "interior-cap", [&] { return msg() + ": " + std::to_string(inn.size()) + " ranges"; });
    c.check(env.isValid() && inn.isValid() && env.isWithin(uni) && inn.isWithin(uni), "not-in-universe", msg);
    bool compound = s.kind >= UNION;
    if (!compound || cap == 0) c.check(inn.isWithin(env) || inn.empty(), "interior-outside-envelope", msg);
    std::string k = kindName(s.kind);
    // every point of the region has its pixel in the envelope
    auto point = [&](UnitVector3d const & u) {
        bool in = reg.contains(u);
        std::uint64_t i = p.p->index(u);
        if (in) { c.count("points of the region"); c.check(has(env, i) || atEdge(p, env, u), ("envelope-misses-point:" + k).c_str(), [&] { return msg() + " misses " + hex(i) + " of " + describe(u); }); }
        // every point of an interior pixel is in the region
        if (has(inn, i) && s.kleene(V3(u)) < 0) c.fail("interior-has-outside-point:" + k, msg() + " has " + hex(i) + " of " + describe(u));
    };
    std::vector<V3> pts = specPoints(r, s, 6);
    for (V3 x : pts) point(toUnit(x));
    for (int i = 0; i < 6; ++i) { V3 x; for (int j = 0; j < 3; ++j) x = x + r.pick(pts) * r.uni(); if (x.norm() > 1e-9L) point(toUnit(x)); }
    // pixels of the interior, and of the envelope, and next to them
    auto pixelsOf = [&](RangeSet const & t, int n) {
        std::vector<std::uint64_t> out;
        if (t.empty()) return out;
        std::vector<std::pair<std::uint64_t, std::uint64_t>> rs;
        for (auto x : t) { rs.push_back({std::get<0>(x), std::get<1>(x)}); if (rs.size() > 3000) break; }
        for (int i = 0; i < n; ++i) {
            auto x = rs[r.below(rs.size())];
            out.push_back(r.chance(.3) ? x.first : (r.chance(.4) ? x.second - 1 : x.first + r.below(x.second - x.first)));
        }
        return out;
    };
    LD const slack = 2e-15L;
    for (std::uint64_t i : pixelsOf(inn, 8)) {
        if (!p.valid(i)) continue;
        c.count("interior pixels");
        auto v = p.vertices(i);
        for (int j = 0; j < 5; ++j) {
            LD w[4];
            V3 x;
            for (size_t m = 0; m < v.size(); ++m) { w[m] = j == 0 ? 1 : r.logUni(1e-4, 1); if (j > 0 && r.chance(.4)) w[m] = 0; x = x + v[m] * w[m]; }
            if (!(x.norm() > 1e-3L)) x = v[static_cast<size_t>(j) % v.size()];
            UnitVector3d u = toUnit(x);
            c.check(s.kleene(V3(u)) >= 0 || s.margin(V3(u)) > -slack - s.tolerance(V3(u)), ("interior-pixel-outside:" + k).c_str(), [&] { return msg() + " has " + hex(i) + " with " + describe(u) + ", margin " + toStr(static_cast<double>(s.margin(V3(u)))); });
        }
    }
    if (cap != 0) return;
    for (std::uint64_t i : pixelsOf(env, 8)) {
        if (!p.valid(i)) continue;
        auto v = p.vertices(i);
        V3 m;
        for (V3 x : v) m = m + x;
        m = m.unit();
        LD rad = 0;
        for (V3 x : v) rad = std::max(rad, angleBetween(m, x));
        if (rad > 1.5L) continue;
        c.count("envelope pixels");
        LD d = apart(reg, m);
        c.check(!(d > rad + 2e-7L), ("envelope-pixel-apart:" + k).c_str(), [&] { return msg() + " has " + hex(i) + ", centred " + toStr(static_cast<double>(d)) + " away with radius " + toStr(static_cast<double>(rad)); });
    }
    // a pixel far inside of a circle, box or polygon is an interior one
    if (s.kind != CIRCLE && s.kind != BOX && s.kind != POLYGON) return;
    for (V3 x : pts) {
        LD mx = s.margin(x);
        if (!(mx > 0)) continue;
        std::uint64_t i = p.p->index(toUnit(x));
        if (!p.valid(i)) continue;
        LD rad = 0;
        for (V3 y : p.vertices(i)) rad = std::max(rad, angleBetween(x, y));
        if (!(mx > rad * 1.001L + 1e-6L)) continue;
        c.count("deep pixels");
        c.check(has(inn, i), ("interior-misses-deep-pixel:" + k).c_str(), [&] { return msg() + " misses " + hex(i) + " of " + describe(x); });
    }
}

int levelFor(Rng & r, double size, int kind, double pixels) {
    double root = kind == 0 ? 1.57 : 1.6;
    int l = static_cast<int>(std::floor(std::log2(root / std::max(1e-12, size) * pixels)));
    return std::max(0, std::min(Pix::maxLevel(kind), l));
}

// The actual extent of a region, for choosing a level at which results stay small.
double extent(Spec const & s) {
    double ext = 0;
    std::function<void(Region const &)> rec = [&](Region const & x) {
        if (auto q = dynamic_cast<CompoundRegion const *>(&x)) { rec(q->getOperand(0)); rec(q->getOperand(1)); return; }
        Circle b = x.getBoundingCircle();
        if (!b.isEmpty()) ext = std::max(ext, b.getOpeningAngle().asRadians());
    };
    rec(*s.region);
    return ext > 0 ? std::max(1e-12, ext) : 0.001;
}

void anySection(Ctx & c, int kind) {
    Rng & r = c.rng;
    int pk = r.range(0, 2);
    bool capped = r.chance(.4);
    double size = anySize(r);
    UnitVector3d center = anyUnit(r);
    if (r.chance(.3)) { Pix q(pk, r.range(0, 20)); center = pixPoint(r, q); }
    Spec s = makeSpec(r, kind, center, size);
    double ext = extent(s);
    int level = levelFor(r, ext, pk, r.pick({0.5, 2.0, 8.0, 30.0, 0.05}));
    size_t cap = 0;
    if (capped) {
        cap = r.pick<size_t>({1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 40, 100});
        if (r.chance(.5)) level = r.range(0, Pix::maxLevel(pk));
        // Interiors are found by visiting all pixels on the boundary.
        level = std::min(level, levelFor(r, ext, pk, 600));
    }
    examine(c, s, Pix(pk, level), cap);
}
}  // namespace

SECTION(circle, 40000) { anySection(c, CIRCLE); }
SECTION(ellipse, 30000) { anySection(c, ELLIPSE); }
SECTION(box, 40000) { anySection(c, BOX); }
SECTION(polygon, 50000) { anySection(c, POLYGON); }
SECTION(compound, 30000) { anySection(c, c.rng.chance(.5) ? UNION : INTERSECTION); }

// Regions that are pixels, or coincide with pixel edges and corners.
SECTION(pixels, 20000) {
    Rng & r = c.rng;
    Pix p = anyPix(r);
    std::uint64_t i = p.randomIndex(r);
    Spec s;
    auto q = std::make_unique<ConvexPolygon>(p.polygon(i));
    std::vector<V3> v(q->getVertices().begin(), q->getVertices().end());
    s.desc = "pixel " + hex(i) + " of " + p.desc();
    s.kind = POLYGON;
    s.region = std::move(q);
    V3 m;
    for (V3 x : v) m = m + x;
    s.seed = m.unit();
    s.margin = [v](V3 x) { return marginPolygon(v, x); };
    s.tolerance = [](V3) { return 4e-15L; };
    finish(s);
    Pix t(p.kind, std::max(0, std::min(Pix::maxLevel(p.kind), p.level + r.range(-3, 3))));
    examine(c, s, t, r.chance(.3) ? r.pick<size_t>({1, 3, 6, 20}) : 0);
    if (r.chance(.5)) {
        // another pixelization
        int k = (p.kind + 1) % 3;
        examine(c, s, Pix(k, std::max(0, std::min(Pix::maxLevel(k), p.level + r.range(-3, 2)))), 0);
    }
}

// Very small caps with fine levels.
SECTION(tight_caps, 20000) {
    Rng & r = c.rng;
    int pk = r.range(0, 2);
    double size = r.logUni(1e-9, 1);
    Spec s = makeSpec(r, r.pick({CIRCLE, BOX, POLYGON, ELLIPSE}), anyUnit(r), size);
    int level = levelFor(r, extent(s), pk, 100);
    examine(c, s, Pix(pk, level), static_cast<size_t>(r.range(1, 8)));
}
