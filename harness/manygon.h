// Regular polygons with more vertices than fit in 8 bits.
#pragma once
#include "spec.h"
#include "codecgen.h"
namespace vh {
struct ManyGon {
    std::vector<V3> v;                 // the polygon's own vertices, counter-clockwise
    V3 center; LD size, apothem;
    std::unique_ptr<ConvexPolygon> poly;
    std::string desc;
};

inline ManyGon manyGon(Ctx & c) {
    Rng & r = c.rng;
    ManyGon g;
    int k = r.pick({255, 256, 257, 258, 300, 511, 513, 700, 1025, r.range(200, 1500), r.range(3, 300), r.range(1000, 2600)});
    UnitVector3d u = anyUnit(r);
    g.center = V3(u).unit();
    g.size = r.pick({0.02, 0.3, 1.0, 1.4, r.uni(0.02, 1.5)});
    g.apothem = atanl(tanl(g.size) * cosl(PIL / k));
    auto ring = ringAround(r, g.center, g.size, k, false);
    std::vector<UnitVector3d> pts;
    for (V3 x : ring) pts.push_back(toUnit(x));
    bool hull = r.chance(.3);
    if (hull) {
        for (size_t i = pts.size(); i > 1; --i) std::swap(pts[i - 1], pts[r.below(i)]);
        g.poly = std::make_unique<ConvexPolygon>(pts);
    } else {
        Bytes b{'p'};
        for (auto const & x : pts) { putF64(b, x.x()); putF64(b, x.y()); putF64(b, x.z()); }
        g.poly = ConvexPolygon::decode(b.data(), b.size());
    }
    auto const & w = g.poly->getVertices();
    g.desc = "regular polygon of " + std::to_string(k) + " vertices, " + (hull ? "hull" : "decoded") + ", center " + describe(u) + " size " + str(static_cast<double>(g.size));
    c.eval(hashBytes(g.desc.data(), g.desc.size()));
    c.check(w.size() == pts.size(), "many-vertices", [&] { return g.desc + " has " + std::to_string(w.size()) + " vertices"; });
    for (auto const & x : w) g.v.push_back(V3(x).unit());
    c.count(k > 256 ? "polygons of more than 256 vertices" : "polygons of up to 256 vertices");
    return g;
}

// A point whose angle from the centre is f times the boundary's in that direction, in the sector of vertex i.
inline V3 sectorPoint(ManyGon const & g, size_t i, LD t, LD f) {
    V3 m = (g.v[i] * (1 - t) + g.v[(i + 1) % g.v.size()] * t).unit();
    LD a = angleBetween(g.center, m) * f;
    V3 d = m - g.center * m.dot(g.center);
    return (g.center * cosl(a) + d.unit() * sinl(a)).unit();
}

// Sector numbers, the first and last and those around powers of two among them.
inline size_t anySector(Rng & r, ManyGon const & g) {
    size_t n = g.v.size();
    return r.chance(.4) ? r.below(n) : (n + r.pick({0, 1, 2, -1, -2, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024})) % n;
}
}  // namespace vh
