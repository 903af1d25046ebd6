// C21: compound regions are unions and intersections of independent copies of their operands.
// The monitor keeps, next to every region, a shadow expression over byte snapshots of its leaves.
#include "vh.h"
#include "gen.h"
#include "spec.h"
#include "rel.h"
using namespace vh;

namespace {

using Bytes = std::vector<std::uint8_t>;

struct Expr;
using ExprPtr = std::shared_ptr<Expr const>;
struct Expr {
    std::uint8_t type = 0;  // 'u', 'i' or 0 for a leaf
    Bytes bytes;            // of a leaf
    RegionPtr leaf;
    ExprPtr a, b;
    int depth = 0;

    Bytes encoding() const {
        if (!type) return bytes;
        Bytes out{type};
        for (auto const & x : {a, b}) {
            Bytes e = x->encoding();
            std::uint64_t n = e.size();
            for (int i = 0; i < 8; ++i) out.push_back(static_cast<std::uint8_t>(n >> (8 * i)));
            out.insert(out.end(), e.begin(), e.end());
        }
        return out;
    }
    template <typename F> int eval(F const & f) const {
        if (!type) return f(*leaf);
        int x = a->eval(f), y = b->eval(f);
        return type == 'u' ? std::max(x, y) : std::min(x, y);
    }
    std::string show() const {
        if (!type) return describe(*leaf);
        return std::string(type == 'u' ? "Union(" : "Intersection(") + a->show() + ", " + b->show() + ")";
    }
    void leaves(std::vector<Region const *> & v) const { if (!type) v.push_back(leaf.get()); else { a->leaves(v); b->leaves(v); } }
};

ExprPtr leafExpr(Region const & r) {
    auto e = std::make_shared<Expr>();
    e->bytes = r.encode();
    e->leaf = Region::decode(e->bytes);
    return e;
}
ExprPtr combine(std::uint8_t t, ExprPtr a, ExprPtr b) {
    auto e = std::make_shared<Expr>();
    e->type = t; e->a = a; e->b = b;
    e->depth = 1 + std::max(a->depth, b->depth);
    return e;
}

std::vector<UnitVector3d> pointsFor(Rng & r, Expr const & e, int n) {
    std::vector<Region const *> l;
    e.leaves(l);
    std::vector<UnitVector3d> out;
    for (int i = 0; i < n; ++i) {
        std::vector<V3> p;
        addPoints(r, *r.pick(l), p, 2);
        for (V3 v : p) {
            if (out.size() >= size_t(6 * n)) break;
            if (v.norm() > 0) out.push_back(toUnit(v.unit()));
        }
    }
    out.push_back(anyUnit(r));
    out.push_back(randomUnit(r));
    return out;
}

void verify(vh::Ctx & c, Region const & r, Expr const & e, char const * what, int n) {
    auto enc = r.encode();
    c.eval(hashBytes(enc.data(), enc.size()));
    if (enc != e.encoding()) {
        c.fail(std::string("changed:") + what, "encoding differs from the operands it was built from: " + e.show());
        return;
    }
    for (auto const & v : pointsFor(c.rng, e, n)) {
        // The three overloads, each where all leaves agree about it (so that rounding in the conversions cannot matter).
        int in = e.eval([&](Region const & l) { return int(l.contains(v)); });
        c.count("points");
        c.count(in ? "points_inside" : "points_outside");
        c.eval();
        if (r.contains(v) != bool(in)) c.fail("contains", std::string(what) + ": contains(v) is " + toStr(!in) + " at " + describe(v) + " for " + e.show());
        double s = c.rng.pick({1.0, 0.5, 3.0, 1e-9, 1e12});
        UnitVector3d w(v.x() * s, v.y() * s, v.z() * s);
        LonLat ll(v);
        UnitVector3d u{LonLat(ll.getLon(), ll.getLat())};
        std::vector<Region const *> ls;
        e.leaves(ls);
        bool stable = true;
        for (auto l : ls) stable = stable && l->contains(w) == l->contains(v) && l->contains(u) == l->contains(v);
        if (!stable) { c.count("unstable"); continue; }
        if (r.contains(v.x() * s, v.y() * s, v.z() * s) != bool(in)) c.fail("contains-xyz", std::string(what) + ": contains(x, y, z) is " + toStr(!in) + " at " + describe(v) + " for " + e.show());
        double lon = ll.getLon().asRadians(), lat = ll.getLat().asRadians();
        if (r.contains(lon, lat) != bool(in)) c.fail("contains-lonlat", std::string(what) + ": contains(lon, lat) is " + toStr(!in) + " at " + describe(v) + " for " + e.show());
    }
}

RegionPtr leafRegion(Rng & r, UnitVector3d const & center) {
    if (r.chance(.06)) {
        switch (r.below(5)) {
            case 0: return std::make_unique<Box>();
            case 1: return std::make_unique<Box>(Box::full());
            case 2: return std::make_unique<Circle>();
            case 3: return std::make_unique<Circle>(Circle::full());
            default: return std::make_unique<Ellipse>();
        }
    }
    return makeRegion(r, r.range(0, POLYGON), center, anySize(r), 9);
}

// Changes a leaf in place through its public interface.
void mutateLeaf(Rng & r, Region & region) {
    if (auto b = dynamic_cast<Box *>(&region)) {
        Box o = makeBox(r, anyUnit(r), anySize(r));
        switch (r.below(5)) {
            case 0: b->clipTo(o); break;
            case 1: b->expandTo(o); break;
            case 2: b->dilateBy(Angle(r.uni(-0.1, 0.3))); break;
            case 3: b->expandTo(LonLat(anyUnit(r))); break;
            default: *b = o;
        }
    } else if (auto k = dynamic_cast<Circle *>(&region)) {
        Circle o = makeCircle(r, anyUnit(r), anySize(r));
        switch (r.below(6)) {
            case 0: k->clipTo(o); break;
            case 1: k->expandTo(o); break;
            case 2: k->dilateBy(Angle(r.uni(-0.1, 0.3))); break;
            case 3: k->expandTo(anyUnit(r)); break;
            case 4: k->complement(); break;
            default: *k = o;
        }
    } else if (auto e = dynamic_cast<Ellipse *>(&region)) {
        if (r.chance(.5)) e->complement(); else *e = makeEllipse(r, anyUnit(r), anySize(r));
    } else if (auto p = dynamic_cast<ConvexPolygon *>(&region)) {
        *p = makePolygon(r, anyUnit(r), r.uni(0.01, 1.0));
    }
}

struct Node { RegionPtr r; ExprPtr e; };

RegionPtr compound(std::uint8_t t, Region const & a, Region const & b) {
    if (t == 'u') return std::make_unique<UnionRegion>(a, b);
    return std::make_unique<IntersectionRegion>(a, b);
}
RegionPtr compound(std::uint8_t t, RegionPtr a, RegionPtr b) {
    std::array<std::unique_ptr<Region>, 2> ops{std::move(a), std::move(b)};
    if (t == 'u') return std::make_unique<UnionRegion>(std::move(ops));
    return std::make_unique<IntersectionRegion>(std::move(ops));
}

void checkListing(vh::Ctx & c, Region const & r, Expr const & e) {
    auto l = Region::getRegions(r);
    std::vector<Bytes> want;
    if (e.type) { want.push_back(e.a->encoding()); want.push_back(e.b->encoding()); } else want.push_back(e.encoding());
    c.eval();
    c.count("listings");
    bool ok = l.size() == want.size();
    for (size_t i = 0; ok && i < l.size(); ++i) ok = l[i] && l[i]->encode() == want[i];
    if (!ok) { c.fail("getRegions", "getRegions does not list the operands in order for " + e.show()); return; }
    // What it returns belongs to the caller.
    for (auto & x : l) mutateLeaf(c.rng, *x);
    l.clear();
    if (r.encode() != e.encoding()) c.fail("getRegions-aliases", "changing what getRegions returned changed the region: " + e.show());
}

}  // namespace

SECTION(trees, 2500) {
    UnitVector3d center = anyUnit(c.rng);
    int depth = c.rng.range(1, 5);
    std::function<Node(int)> make = [&](int d) -> Node {
        if (d == 0 || c.rng.chance(.25)) {
            auto l = leafRegion(c.rng, c.rng.chance(.7) ? center : anyUnit(c.rng));
            auto e = leafExpr(*l);
            return {std::move(l), e};
        }
        Node a = make(d - 1), b = make(d - 1);
        std::uint8_t t = c.rng.chance(.5) ? 'u' : 'i';
        auto e = combine(t, a.e, b.e);
        if (c.rng.chance(.5)) return {compound(t, *a.r, *b.r), e};
        return {compound(t, std::move(a.r), std::move(b.r)), e};
    };
    Node n = make(depth);
    if (!n.e->type) n = Node{compound('u', *n.r, *n.r), combine('u', n.e, n.e)};
    c.count(n.e->depth >= 3 ? "deep_trees" : "shallow_trees");
    verify(c, *n.r, *n.e, "tree", 12);
    auto const & cr = dynamic_cast<CompoundRegion const &>(*n.r);
    c.check(cr.getOperand(0).encode() == n.e->a->encoding() && cr.getOperand(1).encode() == n.e->b->encoding(), "getOperand",
            [&] { return "getOperand does not return the operands in order: " + n.e->show(); });
    checkListing(c, *n.r, *n.e);
    c.sample([&] { return n.e->show(); });
}

// The bounds of a compound contain it, and no relation it reports is contradicted by a point.
SECTION(relations, 4000) {
    Rng & r = c.rng;
    UnitVector3d center = anyUnit(r);
    double size = anySize(r);
    auto near = [&](double f) { return toUnit(offset(r, V3(center).unit(), std::min<LD>(3, f * size * r.uni()))); };
    std::function<RegionPtr(int)> make = [&](int d) -> RegionPtr {
        if (d == 0 || r.chance(.3)) return makeRegion(r, r.range(CIRCLE, POLYGON), near(2.5), size * r.pick({1.0, 1.0, 0.5, 0.1}));
        auto a = make(d - 1), b = make(d - 1);
        return compound(r.chance(.5) ? 'u' : 'i', *a, *b);
    };
    RegionPtr a = make(2), b = make(r.range(0, 2));
    if (!dynamic_cast<CompoundRegion const *>(a.get())) { auto d = make(0); a = compound(r.chance(.5) ? 'u' : 'i', *a, *d); }
    Pairing p{c, *a, *b, {}, "compound"};
    p.pts = testPoints(r, *a, 8);
    auto q = testPoints(r, *b, 8);
    p.pts.insert(p.pts.end(), q.begin(), q.end());
    p.pts.erase(std::remove_if(p.pts.begin(), p.pts.end(), [](V3 v) { return !std::isfinite(v.x + v.y + v.z); }), p.pts.end());
    c.eval(hashRegion(*a) ^ mix(hashRegion(*b)));
    p.relationship(a->relate(*b), "A.relate(B)");
    p.relationship(invert(b->relate(*a)), "B.relate(A), inverted,");
    p.relationship(specific(*a, *b), "type-specific A.relate(B)");
    Box bb = a->getBoundingBox(); Box3d b3 = a->getBoundingBox3d(); Circle bc = a->getBoundingCircle();
    for (V3 v : p.pts) {
        UnitVector3d u = toUnit(v);
        if (!(margin(*a, V3(u)) > tol(*a, V3(u)) + 1e-13L)) continue;
        c.count("points inside");
        c.check(bb.contains(u), "bounding-box", [&] { return describe(*a) + " at " + describe(u); });
        c.check(b3.contains(Vector3d(u)), "bounding-box3d", [&] { return describe(*a) + " at " + describe(u); });
        if (angleBetween(bc.getCenter(), V3(u)) < PIL - 1e-3L) c.check(bc.contains(u), "bounding-circle", [&] { return describe(*a) + " at " + describe(u); });
    }
}

SECTION(histories, 1500) {
    std::vector<Node> pool;
    UnitVector3d center = anyUnit(c.rng);
    auto leaf = [&] { auto l = leafRegion(c.rng, center); auto e = leafExpr(*l); pool.push_back({std::move(l), e}); };
    for (int i = 0; i < 4; ++i) leaf();
    auto any = [&]() -> size_t { return c.rng.below(pool.size()); };
    int steps = c.rng.range(10, 60);
    std::string trace;
    for (int s = 0; s < steps; ++s) {
        int op = c.rng.range(0, 11);
        size_t i = any(), j = any();
        std::uint8_t t = c.rng.chance(.5) ? 'u' : 'i';
        if ((op <= 3) && std::max(pool[i].e->depth, pool[j].e->depth) >= 6) op = 10;
        char const * name = "";
        size_t touched = i;
        switch (op) {
            case 0: case 1: name = "construct"; pool.push_back({compound(t, *pool[i].r, *pool[j].r), combine(t, pool[i].e, pool[j].e)}); touched = pool.size() - 1; break;
            case 2: {
                name = "adopt";  // gives away two regions of the pool
                if (i == j) { pool.push_back({pool[i].r->clone(), pool[i].e}); j = pool.size() - 1; }
                auto e = combine(t, pool[i].e, pool[j].e);
                auto r = compound(t, std::move(pool[i].r), std::move(pool[j].r));
                pool.erase(pool.begin() + std::max(i, j));
                pool.erase(pool.begin() + std::min(i, j));
                pool.push_back({std::move(r), e});
                touched = pool.size() - 1;
                break;
            }
            case 3: {
                name = "reuse-operand";  // a compound built from its own operand and itself
                auto k = dynamic_cast<CompoundRegion const *>(pool[i].r.get());
                if (!k) continue;
                int o = c.rng.range(0, 1);
                auto oe = o ? pool[i].e->b : pool[i].e->a;
                pool.push_back({compound(t, k->getOperand(o), *k), combine(t, oe, pool[i].e)});
                touched = pool.size() - 1;
                break;
            }
            case 4: name = "clone"; { auto r = pool[i].r->clone(); pool.push_back({std::move(r), pool[i].e}); } touched = pool.size() - 1; break;
            case 5: {
                name = "copy";
                RegionPtr r;
                if (auto u = dynamic_cast<UnionRegion const *>(pool[i].r.get())) r = std::make_unique<UnionRegion>(*u);
                else if (auto n = dynamic_cast<IntersectionRegion const *>(pool[i].r.get())) r = std::make_unique<IntersectionRegion>(*n);
                else continue;
                pool.push_back({std::move(r), pool[i].e});
                touched = pool.size() - 1;
                break;
            }
            case 6: {
                name = "move";
                RegionPtr r;
                if (auto u = dynamic_cast<UnionRegion *>(pool[i].r.get())) r = std::make_unique<UnionRegion>(std::move(*u));
                else if (auto n = dynamic_cast<IntersectionRegion *>(pool[i].r.get())) r = std::make_unique<IntersectionRegion>(std::move(*n));
                else continue;
                pool[i].r = std::move(r);  // destroys the source
                break;
            }
            case 7: case 8: {
                name = "mutate";
                if (pool[i].e->type) continue;
                mutateLeaf(c.rng, *pool[i].r);
                pool[i].e = leafExpr(*pool[i].r);
                break;
            }
            case 9: {
                name = "codec";
                auto b = pool[i].r->encode();
                pool.push_back({Region::decode(b), pool[i].e});
                touched = pool.size() - 1;
                break;
            }
            case 10: name = "destroy"; if (pool.size() > 3) pool.erase(pool.begin() + i); touched = any(); break;
            default: name = "list"; checkListing(c, *pool[i].r, *pool[i].e);
        }
        trace += name; trace += ' ';
        c.count("operations");
        while (pool.size() > 14) pool.erase(pool.begin() + any());
        while (pool.size() < 3) leaf();
        if (touched < pool.size()) verify(c, *pool[touched].r, *pool[touched].e, name, 1);
        size_t o = any();
        verify(c, *pool[o].r, *pool[o].e, ("bystander-of-" + std::string(name)).c_str(), 1);
    }
    for (auto const & n : pool) verify(c, *n.r, *n.e, "end", 2);
    c.sample([&] { return trace; });
}
