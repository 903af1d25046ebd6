// Uniform access to the three native pixelizations.
#pragma once
#include "gen.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
namespace vh {

struct Pix {
    int kind, level;
    std::unique_ptr<Pixelization> p;
    Pix(int k, int l) : kind(k), level(l) {
        if (k == 0) p = std::make_unique<HtmPixelization>(l);
        else if (k == 1) p = std::make_unique<Q3cPixelization>(l);
        else p = std::make_unique<Mq3cPixelization>(l);
    }
    char const * name() const { static char const * n[] = {"HTM", "Q3C", "MQ3C"}; return n[kind]; }
    std::string desc() const { return std::string(name()) + "(" + std::to_string(level) + ")"; }
    static int maxLevel(int k) { return k == 0 ? 24 : 30; }
    std::uint64_t roots() const { return kind == 0 ? 8 : 6; }
    std::uint64_t firstRoot() const { return kind == 0 ? 8 : (kind == 1 ? 0 : 10); }
    std::uint64_t first() const { return firstRoot() << (2 * level); }
    std::uint64_t last() const { return ((firstRoot() + roots()) << (2 * level)) - 1; }
    bool valid(std::uint64_t i) const { return i >= first() && i <= last(); }
    std::uint64_t randomIndex(Rng & r) const {
        if (r.chance(.15)) {
            // corners of root pixels and their surroundings
            std::uint64_t i = r.below(roots()) + firstRoot();
            std::uint64_t d = r.below(4);
            for (int l = 0; l < level; ++l) { if (r.chance(.1)) d = r.below(4); i = 4 * i + d; }
            return i;
        }
        return first() + r.below(last() - first() + 1);
    }
    ConvexPolygon polygon(std::uint64_t i) const {
        if (kind == 0) return HtmPixelization::triangle(i);
        if (kind == 1) return static_cast<Q3cPixelization const &>(*p).quad(i);
        return Mq3cPixelization::quad(i);
    }
    std::vector<V3> vertices(std::uint64_t i) const { auto q = polygon(i); return std::vector<V3>(q.getVertices().begin(), q.getVertices().end()); }
    std::vector<std::uint64_t> neighborhood(std::uint64_t i) const {
        if (kind == 1) return static_cast<Q3cPixelization const &>(*p).neighborhood(i);
        return Mq3cPixelization::neighborhood(i);
    }
};

inline Pix anyPix(Rng & r, int maxLevel = 30) {
    int k = r.range(0, 2);
    int m = std::min(maxLevel, Pix::maxLevel(k));
    int l = r.chance(.2) ? r.pick({0, 1, m, m - 1}) : r.range(0, m);
    return Pix(k, std::max(0, std::min(l, m)));
}

// A point at or near the boundary of some pixel, or anywhere.
inline UnitVector3d pixPoint(Rng & r, Pix const & p) {
    if (r.chance(.4)) return anyUnit(r);
    auto v = p.vertices(p.randomIndex(r));
    size_t k = r.below(v.size());
    V3 a = v[k], b = v[(k + 1) % v.size()];
    V3 x = r.chance(.4) ? a : (a + (b - a) * r.pick({0.5, 0.25, r.uni()})).unit();
    UnitVector3d u = toUnit(x);
    if (r.chance(.3)) return UnitVector3d::fromNormalized(nudge(r, u.x()), nudge(r, u.y()), nudge(r, u.z()));
    if (r.chance(.3)) return toUnit(offset(r, x, r.logUni(1e-17, 1e-9)));
    return u;
}

// Solid angle of a convex polygon, accurate for small ones.
inline LD areaOf(std::vector<V3> const & v) {
    LD a = 0;
    for (size_t i = 1; i + 1 < v.size(); ++i) {
        V3 x = v[0].unit(), y = v[i].unit(), z = v[i + 1].unit();
        // x.(y x z), written with differences
        LD t = x.dot((y - x).cross(z - x));
        a += 2 * atan2l(t, 1 + x.dot(y) + y.dot(z) + z.dot(x));
    }
    return a;
}
}  // namespace vh
