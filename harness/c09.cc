// C09: convex hulls. An accepted hull certifies itself (exact predicates); a rejection must be
// justified by points without an open enclosing hemisphere, or without extent.
#include "exact.h"
using namespace vh;

namespace {
typedef std::vector<UnitVector3d> Points;

std::string show(Points const & p) {
    std::string s = std::to_string(p.size()) + " points:";
    for (size_t i = 0; i < p.size() && i < 14; ++i) s += " " + describe(p[i]);
    return s;
}

bool nearlyParallel(UnitVector3d const & a, UnitVector3d const & b) { return exactParallel(a, b) || V3(a).cross(V3(b)).norm() < 1e-150L; }
bool sameDirection(UnitVector3d const & a, UnitVector3d const & b) { return nearlyParallel(a, b) && V3(a).dot(V3(b)) > 0; }

// Removes points that are (but for underflow) multiples of, but not equal to, others: they leave the
// vertices undetermined.
Points withoutMultiples(Points const & p) {
    Points out;
    for (auto const & v : p) {
        bool ok = true;
        for (auto const & w : out) if (v != w && v != -w && nearlyParallel(v, w)) { ok = false; break; }
        if (ok) out.push_back(v);
    }
    return out;
}

bool coplanar(Points const & p) {
    size_t n = p.size(), j = 0;
    for (j = 1; j < n; ++j) if (!exactParallel(p[0], p[j])) break;
    for (size_t k = j + 1; k < n; ++k) if (fastSign(p[0], p[j], p[k]) != 0) return false;
    return true;
}

// Is the origin in the convex hull of the (non-coplanar, distinct) points? For small sets, exactly.
bool surroundsOrigin(Points const & p) {
    size_t n = p.size();
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (exactParallel(p[i], p[j]) && V3(p[i]).dot(V3(p[j])) < 0) return true;
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t k = j + 1; k < n; ++k) {
        int s = fastSign(p[i], p[j], p[k]);
        if (s == 0) {
            for (auto const & e : {UnitVector3d::X(), UnitVector3d::Y(), UnitVector3d::Z()}) {
                int a = fastSign(e, p[i], p[j]), b = fastSign(e, p[j], p[k]), d = fastSign(e, p[k], p[i]);
                if (a != 0 && a == b && b == d) return true;
            }
            continue;
        }
        for (size_t l = k + 1; l < n; ++l) {
            int a = fastSign(p[j], p[k], p[l]), b = -fastSign(p[i], p[k], p[l]), d = fastSign(p[i], p[j], p[l]), e = -s;
            if (a != 0 && a == b && b == d && d == e) return true;
        }
    }
    return false;
}

bool build(Points const & p, ConvexPolygon & out, bool viaHull) {
    try {
        if (viaHull) out = ConvexPolygon::convexHull(p); else out = ConvexPolygon(p);
        return true;
    } catch (std::exception const &) { return false; }
}

ConvexPolygon dummy() { return ConvexPolygon(UnitVector3d::X(), UnitVector3d::Y(), UnitVector3d::Z()); }

// `must`: +1 if a hull is known to exist, -1 if it is known not to, 0 to find out.
void examine(Ctx & c, Points p, int must = 0) {
    Rng & r = c.rng;
    p = withoutMultiples(p);
    std::vector<double> k;
    for (auto const & v : p) { k.push_back(v.x()); k.push_back(v.y()); k.push_back(v.z()); }
    c.eval(hashBytes(k.data(), k.size() * sizeof(double)));
    ConvexPolygon hull = dummy();
    bool ok = build(p, hull, false);
    c.count(ok ? "accepted" : "rejected");
    Points const h = ok ? hull.getVertices() : Points();
    if (ok) {
        c.check(must >= 0, "accepted-invalid", [&] { return show(p) + " gave " + describe(hull); });
        c.check(h.size() >= 3, "too-few-vertices", [&] { return show(p) + " gave " + describe(hull); });
        for (auto const & v : h) c.check(std::find(p.begin(), p.end(), v) != p.end(), "vertex-not-input", [&] { return show(p) + " gave vertex " + describe(v); });
        for (size_t i = 0; i < h.size(); ++i) {
            auto const & a = h[i]; auto const & b = h[(i + 1) % h.size()];
            for (auto const & v : h) {
                if (&v == &a || &v == &b) continue;
                if (fastSign(a, b, v) <= 0) { c.fail("not-strictly-convex", show(p) + " gave " + describe(hull)); break; }
            }
            for (auto const & v : p) if (fastSign(a, b, v) < 0) { c.fail("input-outside", show(p) + " gave " + describe(hull) + " without " + describe(v)); break; }
        }
        for (auto const & v : p) c.check(hull.contains(v), "input-not-contained", [&] { return show(p) + ": " + describe(v); });
        c.count("hull vertices", h.size());
    } else {
        c.check(must <= 0, "rejected-valid", [&] { return show(p); });
        if (must == 0 && p.size() <= 14) {
            c.count("rejections justified");
            c.check(p.size() < 3 || coplanar(p) || surroundsOrigin(p), "rejected-valid", [&] { return show(p); });
        }
    }
    // order, repetition and redundant points do not matter
    for (int rep = 0; rep < 4; ++rep) {
        Points q = p;
        if (q.empty()) break;
        int extra = rep == 0 ? 0 : r.range(0, 4);
        for (int i = 0; i < extra; ++i) q.push_back(r.pick(p));
        if (rep == 3 && ok) {
            // the midpoint of input points lies within the hull unless rounded out of it
            V3 mid = V3(r.pick(p)) + V3(r.pick(p));
            bool inside = mid.norm() > 1e-9L, par = false;
            UnitVector3d m = inside ? toUnit(mid) : p[0];
            for (size_t i = 0; i < h.size(); ++i) inside = inside && fastSign(h[i], h[(i + 1) % h.size()], m) >= 0;
            for (auto const & v : p) par = par || (v != m && sameDirection(v, m));
            if (inside && !par) q.push_back(m);
        }
        for (size_t i = q.size() - 1; i > 0; --i) std::swap(q[i], q[r.below(i + 1)]);
        ConvexPolygon g = dummy();
        bool ok2 = build(q, g, rep % 2 == 0);
        c.count("permutations");
        c.check(ok == ok2, "acceptance-depends-on-order", [&] { return show(p) + (ok ? " accepted" : " rejected") + ", but not reordered as " + show(q); });
        if (!ok || !ok2) continue;
        c.check(g == hull && hull == g && !(g != hull), "hull-depends-on-order", [&] { return show(p) + " gave " + describe(hull) + ", reordered as " + show(q) + " " + describe(g); });
        // equality means the same cyclic sequence
        Points const & w = g.getVertices();
        auto at = w.empty() || h.empty() ? w.end() : std::find(w.begin(), w.end(), h[0]);
        bool same = w.size() == h.size() && at != w.end();
        for (size_t i = 0; same && i < h.size(); ++i) same = w[(static_cast<size_t>(at - w.begin()) + i) % w.size()] == h[i];
        c.check(same, "vertices-depend-on-order", [&] { return describe(hull) + " and " + describe(g); });
    }
    if (ok) {
        ConvexPolygon g = dummy();
        c.check(build(h, g, false) && g == hull, "hull-not-idempotent", [&] { return show(p) + " gave " + describe(hull); });
        if (h.size() > 3) {
            Points q(h.begin(), h.end() - 1);
            if (build(q, g, false)) c.check(!(g == hull), "unequal-polygons-equal", [&] { return describe(hull) + " and " + describe(g); });
        }
        c.sample([&] { return show(p) + " -> " + describe(hull); });
    }
}

UnitVector3d nudged(Rng & r, UnitVector3d const & v) { return UnitVector3d::fromNormalized(nudge(r, v.x()), nudge(r, v.y()), nudge(r, v.z())); }

// Points strictly within a hemisphere around center, at most `size` away.
Points cap(Rng & r, V3 center, LD size, int n) {
    Points p;
    for (int i = 0; i < n; ++i) p.push_back(toUnit(offset(r, center, size * std::sqrt(r.uni()))));
    return p;
}

// A point of the plane through the origin with exactly representable symmetric coordinates.
UnitVector3d onPlane(Rng & r, int plane) {
    double t = r.chance(.3) ? r.range(-6, 6) * PI / 6 : r.uni(-PI, PI);
    double a = std::cos(t), b = std::sin(t);
    switch (plane) {
        case 0: return UnitVector3d::fromNormalized(a, b, 0);
        case 1: return UnitVector3d::fromNormalized(0, a, b);
        case 2: return UnitVector3d::fromNormalized(b, 0, a);
        case 3: { double s = a * std::sqrt(0.5); return UnitVector3d::fromNormalized(s, s, b); }
        case 4: { double s = a * std::sqrt(0.5); return UnitVector3d::fromNormalized(s, b, -s); }
        default: { double s = a * std::sqrt(0.5); return UnitVector3d::fromNormalized(b, -s, s); }
    }
}
}  // namespace

// Within a hemisphere, with extent: must be accepted.
SECTION(hemisphere, 120000) {
    Rng & r = c.rng;
    LD size = r.chance(.5) ? static_cast<LD>(r.uni(0.01, 1.57)) : static_cast<LD>(r.logUni(1e-6, 1.57));
    V3 center(anyUnit(r));
    int n = r.chance(.1) ? r.range(15, 60) : r.range(3, 14);
    Points p = cap(r, center, size, n);
    if (r.chance(.3)) for (V3 v : ringAround(r, center, size, r.range(3, 20), r.chance(.5))) p.push_back(toUnit(v));
    V3 a = V3(p[1]) - V3(p[0]);
    LD spread = 0;
    for (auto const & v : p) spread = std::max(spread, fabsl(V3(p[0]).cross(a).dot(V3(v))));
    examine(c, p, spread > 1e-17L ? 1 : 0);
}

// The whole sphere: no enclosing hemisphere.
SECTION(sphere, 40000) {
    Rng & r = c.rng;
    Points p;
    int n = r.range(1, 10);
    for (int i = 0; i < n; ++i) p.push_back(anyUnit(r));
    if (r.chance(.3)) {
        V3 s;
        for (auto const & v : p) s = s + V3(v) * r.uni(0.1, 1);
        if (s.norm() > 1e-3L) p.push_back(toUnit(-s));
    }
    examine(c, p);
}

// Points clustered to rounding distance, and coplanar runs with nudges.
SECTION(clustered, 80000) {
    Rng & r = c.rng;
    Points p;
    int n = r.range(2, 9);
    UnitVector3d v = anyUnit(r);
    for (int i = 0; i < n; ++i) {
        p.push_back(r.chance(.5) ? nudged(r, v) : nearUnit(r, v));
        if (r.chance(.2)) v = anyUnit(r);
    }
    examine(c, p);
}

SECTION(coplanar_runs, 120000) {
    Rng & r = c.rng;
    Points p;
    int n = r.range(2, 8), plane = r.range(0, 5);
    for (int i = 0; i < n; ++i) p.push_back(onPlane(r, plane));
    if (r.chance(.3)) for (auto & v : p) if (r.chance(.3)) v = r.chance(.5) ? -v : nudged(r, v);
    int m = r.range(0, 4);
    if (r.chance(.5)) {
        // keep the run within less than half a great circle
        UnitVector3d f = onPlane(r, plane);
        for (auto & v : p) if (V3(v).dot(V3(f)) <= 0) v = -v;
    }
    UnitVector3d side = anyUnit(r);
    for (int i = 0; i < m; ++i) p.push_back(r.chance(.7) ? toUnit(offset(r, V3(side), 0.3 * r.uni())) : (r.chance(.5) ? onPlane(r, r.range(0, 5)) : nearUnit(r, r.pick(p))));
    for (size_t i = p.size() - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
    examine(c, p);
}

// A valid hull with points appended on, or an ulp next to, its edges and vertices, antipodes and interior.
SECTION(perturbed_hulls, 80000) {
    Rng & r = c.rng;
    ConvexPolygon g = [&] { for (;;) try { return makePolygon(r, anyUnit(r), anySize(r)); } catch (std::invalid_argument const &) {} }();
    Points p = g.getVertices();
    int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) {
        size_t k = r.below(p.size());
        UnitVector3d a = p[k], b = p[(k + 1) % p.size()];
        switch (r.range(0, 6)) {
            case 0: p.push_back(a); break;
            case 1: p.push_back(nudged(r, a)); break;
            case 2: case 3: { V3 m = (V3(a) * r.uni() + V3(b) * r.uni()); if (m.norm() > 1e-9L) p.push_back(toUnit(m)); break; }
            case 4: { V3 m = (V3(a) * r.uni(-.2, 1.2) + V3(b)); if (m.norm() > 1e-9L) p.push_back(nudged(r, toUnit(m))); break; }
            case 5: { V3 m; for (auto const & v : p) m = m + V3(v) * r.uni(); if (m.norm() > 1e-9L) p.push_back(toUnit(m)); break; }
            default: p.push_back(r.chance(.3) ? nudged(r, -a) : toUnit(offset(r, V3(a), r.logUni(1e-12, .1))));
        }
    }
    examine(c, p);
}

// Axis vectors and diagonals: all kinds of exact degeneracy. Small sets from a fixed palette.
SECTION(palette, 100000) {
    Rng & r = c.rng;
    Points p;
    int n = r.range(1, 7);
    for (int i = 0; i < n; ++i) {
        int x, y, z;
        do { x = r.range(-1, 1); y = r.range(-1, 1); z = r.range(-1, 1); } while (!x && !y && !z);
        p.push_back(UnitVector3d(x, y, z));
    }
    examine(c, p);
}

// Too few distinct points.
SECTION(too_few, 5000) {
    Rng & r = c.rng;
    Points p;
    int n = r.range(0, 5);
    UnitVector3d a = anyUnit(r), b = r.chance(.5) ? anyUnit(r) : nearUnit(r, a);
    for (int i = 0; i < n; ++i) p.push_back(r.chance(.5) ? a : b);
    examine(c, p, -1);
}

// Very many points, and hulls of very many vertices: the hull is known.
SECTION(many_points, 40) {
    Rng & r = c.rng;
    V3 center(anyUnit(r));
    LD size = static_cast<LD>(r.uni(0.2, 1.4));
    int k = r.chance(.5) ? r.range(3, 12) : static_cast<int>(r.logUni(200, 1500));
    int n = std::min(90000, static_cast<int>(r.logUni(100, 3e6 / k))), copies = r.range(0, 50);
    Points p, hull;
    for (V3 v : ringAround(r, center, size, k, false)) { hull.push_back(toUnit(v)); p.push_back(hull.back()); }
    // points well inside of the polygon, and repeated vertices
    LD inner = atanl(tanl(size) * cosl(PIL / k)) * 0.95L;
    V3 e1 = anyOrthogonal(center), e2 = center.unit().cross(e1);
    for (int i = 0; i < n; ++i) {
        LD t = inner * sqrtl(static_cast<LD>(r.uni())), a = static_cast<LD>(r.uni(0, 2 * PI));
        p.push_back(toUnit(center * cosl(t) + (e1 * cosl(a) + e2 * sinl(a)) * sinl(t)));
    }
    for (int i = 0; i < copies; ++i) p.push_back(r.pick(hull));
    for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
    auto msg = [&] { return std::to_string(p.size()) + " points, hull of " + std::to_string(k) + " vertices around " + describe(toUnit(center)) + " size " + str(static_cast<double>(size)); };
    c.eval(bits(hull[0].x()) ^ p.size());
    Points got;
    try { got = ConvexPolygon(p).getVertices(); } catch (std::exception const & e) { c.fail("large-hull-rejected", msg() + ": " + e.what()); return; }
    if (got.size() != hull.size()) { c.fail("large-hull-size", msg() + " gave " + std::to_string(got.size())); return; }
    auto it = std::find(got.begin(), got.end(), hull[0]);
    if (it == got.end()) { c.fail("large-hull-vertex", msg()); return; }
    std::rotate(got.begin(), it, got.end());
    c.check(got == hull, "large-hull", msg);
    c.count("points in large sets", p.size());
    c.count("hull vertices of large sets", hull.size());
}
