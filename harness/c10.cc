// C10: index and geometry of pixels agree, and pixels partition the sphere.
#include "pix.h"
using namespace vh;

namespace {
std::string hex(std::uint64_t u) { char b[24]; std::snprintf(b, sizeof b, "0x%" PRIx64, u); return b; }
LD tolerance(Pix const &) { return 4e-15L; }
}

SECTION(point_to_pixel, 500000) {
    Rng & r = c.rng;
    Pix p = anyPix(r);
    UnitVector3d u = pixPoint(r, p);
    std::uint64_t i = p.p->index(u);
    c.eval(mix(i) ^ static_cast<std::uint64_t>(p.kind * 64 + p.level));
    auto msg = [&] { return p.desc() + " index of " + describe(u) + " is " + hex(i); };
    c.check(p.valid(i), "index-not-in-universe", msg);
    if (!p.valid(i)) return;
    c.check(p.p->universe().contains(i), "universe", msg);
    auto poly = p.polygon(i);
    std::vector<V3> v(poly.getVertices().begin(), poly.getVertices().end());
    LD m = marginPolygon(v, V3(u));
    c.check(m >= -tolerance(p), "pixel-does-not-contain-point", [&] { return msg() + ", whose pixel is " + toStr(static_cast<double>(-m)) + " away: " + describe(poly); });
    auto reg = p.p->pixel(i);
    auto rp = dynamic_cast<ConvexPolygon const *>(reg.get());
    c.check(rp && *rp == poly, "pixel-and-quad-differ", msg);
    // Quad pixels are dilated so that they contain all points indexed to them.
    if (p.kind != 0) { c.check(reg->contains(u) && poly.contains(u), "quad-pixel-contains", msg); c.count("quad pixels containing the point"); }
    if (m > 1e-17L) { c.check(reg->contains(u), "pixel-contains", msg); c.count("strictly inside"); } else c.count("on boundary");
    // coarser levels
    for (int l = 0; l < p.level; l += r.range(1, 6)) {
        Pix q(p.kind, l);
        std::uint64_t j = q.p->index(u);
        c.check(j == i >> (2 * (p.level - l)), "nesting", [&] { return msg() + " but at level " + std::to_string(l) + " " + hex(j); });
    }
    // repeated evaluation
    c.check(p.p->index(u) == i, "not-deterministic", msg);
}

// Points around the edges of quad pixels and of cube faces, at all levels.
SECTION(quad_edges, 1000000) {
    Rng & r = c.rng;
    Pix p(r.range(1, 2), r.range(0, 30));
    auto v = p.vertices(p.randomIndex(r));
    V3 x, y;
    for (V3 w : v) x = x + w;
    x = x.unit();
    size_t k = r.below(v.size());
    y = r.chance(.3) ? v[k] : (v[k] + (v[(k + 1) % v.size()] - v[k]) * r.uni()).unit();
    // The vertices include the dilation.
    UnitVector3d u = toUnit((y + (x - y).unit() * r.pick({0.0, 5e-16, 1e-15, 1.2e-15, r.uni() * 2e-15})).unit());
    std::uint64_t i = p.p->index(u);
    c.eval(mix(i) ^ bits(u.x()));
    c.check(p.valid(i), "index-not-in-universe", [&] { return p.desc() + " index of " + describe(u) + " is " + hex(i); });
    if (!p.valid(i)) return;
    c.check(p.polygon(i).contains(u), "quad-pixel-contains", [&] { return p.desc() + " index of " + describe(u) + " is " + hex(i) + ", but its pixel does not contain it"; });
}

SECTION(pixel_to_point, 300000) {
    Rng & r = c.rng;
    Pix p = anyPix(r);
    std::uint64_t i = p.randomIndex(r);
    auto v = p.vertices(i);
    c.eval(mix(i) ^ static_cast<std::uint64_t>(p.kind * 64 + p.level));
    auto msg = [&] { return p.desc() + " pixel " + hex(i); };
    c.check(v.size() == (p.kind == 0 ? 3u : 4u), "vertex-count", msg);
    c.check(areaOf(v) > 0, "not-counter-clockwise", msg);
    for (size_t k = 0; k < v.size(); ++k) {
        V3 a = v[k], b = v[(k + 1) % v.size()], d = v[(k + 2) % v.size()];
        c.check((a + b).cross(b - a).dot(d) > 0, "not-convex", msg);
    }
    LD size = angleBetween(v[0], v[1]);
    for (int k = 0; k < 6; ++k) {
        // a point inside, possibly close to a corner or an edge
        LD w[4]; LD s = 0;
        for (size_t j = 0; j < v.size(); ++j) { w[j] = k == 0 ? 1.0L : static_cast<LD>(r.chance(.5) ? r.uni() : r.logUni(1e-6, 1)); s += w[j]; }
        V3 x;
        for (size_t j = 0; j < v.size(); ++j) x = x + v[j] * (w[j] / s);
        UnitVector3d u = toUnit(x);
        if (marginPolygon(v, V3(u)) <= tolerance(p)) { c.count("too close to an edge"); continue; }
        c.count("interior points");
        std::uint64_t j = p.p->index(u);
        c.check(j == i, "interior-point-elsewhere", [&] { return msg() + " contains " + describe(u) + ", which is indexed to " + hex(j); });
    }
    if (p.level < Pix::maxLevel(p.kind)) {
        // children cover exactly their parent
        Pix q(p.kind, p.level + 1);
        LD sum = 0, whole = areaOf(v);
        for (std::uint64_t k = 0; k < 4; ++k) {
            auto w = q.vertices(4 * i + k);
            sum += areaOf(w);
            for (V3 x : w) c.check(marginPolygon(v, x) >= -tolerance(p), "child-outside-parent", [&] { return msg() + " child " + std::to_string(k); });
        }
        c.check(fabsl(sum - whole) <= size * 2e-14L + 1e-17L * whole, "children-areas", [&] { return msg() + ": " + toStr(static_cast<double>(sum)) + " vs " + toStr(static_cast<double>(whole)); });
    }
}

// Pixels sharing an edge or a corner: those found next to each corner.
SECTION(neighborhoods, 120000) {
    Rng & r = c.rng;
    int k = r.range(1, 2);
    Pix p(k, r.chance(.5) ? r.range(0, 6) : r.range(0, 28));
    std::uint64_t i = p.randomIndex(r);
    if (p.level <= 2 && r.chance(.9)) i = p.first() + c.index % (p.last() - p.first() + 1);
    auto v = p.vertices(i);
    LD size = std::min(angleBetween(v[0], v[1]), angleBetween(v[1], v[2]));
    std::vector<std::uint64_t> want{i};
    for (V3 x : v) {
        double t0 = r.uni(0, 1);
        for (int a = 0; a < 12; ++a) {
            V3 d = rotateAround(anyOrthogonal(x), x, (a + t0) * PIL / 6);
            want.push_back(p.p->index(toUnit(x * cosl(size * 0.01L) + d * sinl(size * 0.01L))));
        }
    }
    std::sort(want.begin(), want.end());
    want.erase(std::unique(want.begin(), want.end()), want.end());
    auto got = p.neighborhood(i);
    c.eval(mix(i) ^ static_cast<std::uint64_t>(p.kind * 64 + p.level));
    std::sort(got.begin(), got.end());
    c.check(got == want, "neighborhood", [&] {
        std::string s = p.desc() + " neighborhood of " + hex(i) + " is";
        for (auto x : got) s += " " + hex(x);
        s += ", expected";
        for (auto x : want) s += " " + hex(x);
        return s;
    });
}

// All pixels of coarse levels: areas add up to the sphere, every pixel maps to itself.
SECTION(partition_all, 24) {
    int kind = static_cast<int>(c.index % 3), level = static_cast<int>(c.index / 3);
    if (kind != 0 && level > 6) return;
    if (level > 6) level = 6;
    Pix p(kind, level);
    LD sum = 0;
    RangeSet u = p.p->universe();
    std::uint64_t n = 0;
    for (std::uint64_t i = p.first(); i <= p.last(); ++i) {
        auto v = p.vertices(i);
        sum += areaOf(v);
        V3 m;
        for (V3 x : v) m = m + x;
        ++n;
        std::uint64_t j = p.p->index(toUnit(m));
        c.check(j == i, "centre", [&] { return p.desc() + " centre of " + hex(i) + " is indexed to " + hex(j); });
        c.check(u.contains(i), "universe", [&] { return p.desc() + " " + hex(i); });
        c.eval(mix(i) ^ static_cast<std::uint64_t>(kind * 64 + level));
    }
    c.check(u.cardinality() == n, "universe-size", [&] { return p.desc(); });
    c.check(fabsl(sum - 4 * PIL) < 1e-13L * n, "total-area", [&] { return p.desc() + " sums to " + toStr(static_cast<double>(sum)); });
}
