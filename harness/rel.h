// Witness search for claims about the relationship of two regions.
#pragma once
#include "gen.h"

namespace vh {
namespace {
LD tol(Region const & a, V3 p) {
    if (auto c = dynamic_cast<Circle const *>(&a)) {
        LD d = angleBetween(c->getCenter(), p);
        return 3e-15L + (d > PIL / 2 ? 6e-15L / std::max(sinl(d), 1e-7L) : 0);
    }
    if (dynamic_cast<ConvexPolygon const *>(&a)) return 1e-17L;
    if (auto q = dynamic_cast<CompoundRegion const *>(&a)) return std::max(tol(q->getOperand(0), p), tol(q->getOperand(1), p));
    return 1e-14L;
}

// How clearly p refutes the claim: positive if it does.
struct Claim {
    Region const & a; Region const & b; bool disjoint;  // otherwise: a contains b
    LD operator()(V3 p) const {
        LD mb = margin(b, p) - tol(b, p);
        LD ma = disjoint ? margin(a, p) - tol(a, p) : -margin(a, p) - tol(a, p);
        return std::min(ma, mb);
    }
};

// Searches for a refuting point, starting from the samples.
bool refute(Rng & r, Claim const & f, std::vector<V3> const & pts, V3 & out, std::uint64_t & evals) {
    std::vector<std::pair<LD, V3>> best;
    for (V3 p : pts) {
        LD x = f(p);
        ++evals;
        if (x > 0) { out = p; return true; }
        best.emplace_back(x, p);
    }
    std::partial_sort(best.begin(), best.begin() + std::min<size_t>(2, best.size()), best.end(), [](auto const & x, auto const & y) { return x.first > y.first; });
    for (size_t i = 0; i < best.size() && i < 2; ++i) {
        LD x = best[i].first; V3 p = best[i].second;
        LD step = std::min<LD>(0.5L, std::max<LD>(fabsl(x) * 4, 1e-13L));
        for (int k = 0; k < 60 && step > 1e-15L; ++k) {
            bool better = false;
            for (int j = 0; j < 3 && !better; ++j) {
                V3 q = offset(r, p, step * r.uni());
                LD y = f(q);
                ++evals;
                if (y > 0) { out = q; return true; }
                if (y > x) { x = y; p = q; better = true; }
            }
            step *= better ? 1.5L : 0.4L;
        }
    }
    return false;
}

std::string rel(Relationship r) { return r.to_string(); }

struct Pairing {
    Ctx & c;
    Region const & a; Region const & b;
    std::vector<V3> pts;
    std::string kinds;
    std::uint64_t evals = 0;
    bool known[3] = {false, false, false}, refuted[3];
    V3 witness[3];
    bool holds(int w) {  // 0: disjoint, 1: a contains b, 2: b contains a
        if (!known[w]) {
            known[w] = true;
            if (w == 0) refuted[w] = refute(c.rng, Claim{a, b, true}, pts, witness[w], evals);
            else if (w == 1) refuted[w] = refute(c.rng, Claim{a, b, false}, pts, witness[w], evals);
            else refuted[w] = refute(c.rng, Claim{b, a, false}, pts, witness[w], evals);
        }
        return !refuted[w];
    }
    void claim(int w, char const * who) {
        static char const * names[] = {"DISJOINT", "CONTAINS", "WITHIN"};
        c.count(names[w]);
        if (holds(w)) return;
        V3 p = witness[w];
        c.fail(std::string("relate:") + kinds + ":" + names[w], std::string(who) + " claims " + names[w] + " for\nA = " + describe(a) + "\nB = " + describe(b) +
               "\nbut at " + describe(p) + " the margins are A: " + str(static_cast<double>(margin(a, p))) + " B: " + str(static_cast<double>(margin(b, p))));
    }
    void relationship(Relationship r, char const * who) {
        if ((r & DISJOINT) != 0) claim(0, who);
        if ((r & CONTAINS) != 0) claim(1, who);
        if ((r & WITHIN) != 0) claim(2, who);
    }
};

// Calls the overload for the dynamic type of b.
Relationship specific(Region const & a, Region const & b) {
    if (auto x = dynamic_cast<Circle const *>(&b)) return a.relate(*x);
    if (auto x = dynamic_cast<Ellipse const *>(&b)) return a.relate(*x);
    if (auto x = dynamic_cast<Box const *>(&b)) return a.relate(*x);
    if (auto x = dynamic_cast<ConvexPolygon const *>(&b)) return a.relate(*x);
    return a.relate(b);
}

}  // namespace
}  // namespace vh
