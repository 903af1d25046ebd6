// C15: every allocation made by an operation fails once; involved sets must be unchanged and nothing may leak.
#include "fault.h"
#include "rs.h"
using namespace rs;

namespace {
struct Pair { RangeSet s; Model m; };
Pair randomSet(Rng & r, Values const & val) {
    Pair p;
    int n = r.range(0, 8);
    for (int i = 0; i < n; ++i) { std::uint64_t u = val(r), v = u + 1 + r.below(6); p.s.insert(u, v); p.m = unite(p.m, range(u, v)); }
    if (r.chance(.3)) { p.s.complement(); p.m = comp(p.m); }
    if (r.chance(.3)) { RangeSet t(p.s); p.s = t; }  // capacity equal to size
    return p;
}
}  // namespace

SECTION(strong_guarantee, 40000) {
    Rng & r = c.rng;
    Values val(r);
    Pair a = randomSet(r, val), b = randomSet(r, val);
    std::uint64_t u = val(r), v = r.chance(.5) ? u + 1 + r.below(6) : val(r);
    int op = static_cast<int>(c.index % 16);
    static char const * names[] = {"insert(u)", "insert(u,v)", "erase(u)", "erase(u,v)", "&=", "|=", "-=", "^=", "intersection", "join", "difference", "symmetricDifference", "insert(tuple)", "erase(tuple)", "complemented", "simplified/scaled"};
    Model em;
    switch (op) {
        case 0: em = unite(a.m, range(u, u + 1)); break;
        case 1: case 12: em = unite(a.m, range(u, v)); break;
        case 2: em = minus(a.m, range(u, u + 1)); break;
        case 3: case 13: em = minus(a.m, range(u, v)); break;
        case 4: case 8: em = meet(a.m, b.m); break;
        case 5: case 9: em = unite(a.m, b.m); break;
        case 6: case 10: em = minus(a.m, b.m); break;
        case 7: case 11: em = sym(a.m, b.m); break;
        case 14: em = comp(a.m); break;
        default: em = simplify(a.m, 2); break;
    }
    std::string desc = std::string(names[op]) + " on " + show(a.m) + (op >= 4 && op <= 11 ? " and " + show(b.m) : " with " + hex(u) + "," + hex(v));
    c.eval(hashBytes(desc.data(), desc.size()));
    for (long k = 0;; ++k) {
        RangeSet x(a.s), y(b.s);
        bool threw = false;
        Model gm;
        long live = 0, after = 0, made = 0;
        {
            RangeSet out;
            live = vh::fault::live();
            vh::fault::arm(k);
            try {
                switch (op) {
                    case 0: x.insert(u); break;
                    case 1: x.insert(u, v); break;
                    case 2: x.erase(u); break;
                    case 3: x.erase(u, v); break;
                    case 4: x &= y; break;
                    case 5: x |= y; break;
                    case 6: x -= y; break;
                    case 7: x ^= y; break;
                    case 8: out = x.intersection(y); break;
                    case 9: out = x.join(y); break;
                    case 10: out = x.difference(y); break;
                    case 11: out = x.symmetricDifference(y); break;
                    case 12: x.insert(std::make_tuple(u, v)); break;
                    case 13: x.erase(std::make_tuple(u, v)); break;
                    case 14: out = x.complemented(); break;
                    default: out = x.simplified(2); break;
                }
            } catch (std::bad_alloc const &) { threw = true; }
            made = vh::fault::disarm();
            after = vh::fault::live();
            if (!threw) gm = op <= 7 || op == 12 || op == 13 ? modelOf(x) : modelOf(out);
        }
        c.eval();
        if (threw) {
            c.count("injected_failures");
            std::string e = inspect(x, a.m), f = inspect(y, b.m);
            c.check(e.empty(), "rangeset-not-strong", [&] { return desc + ", failing allocation " + std::to_string(k) + ": the set changed: " + e; });
            c.check(f.empty(), "rangeset-operand-changed", [&] { return desc + ", failing allocation " + std::to_string(k) + ": the operand changed: " + f; });
            c.check(after == live, "rangeset-leak", [&] { return desc + ", failing allocation " + std::to_string(k) + ": " + std::to_string(after - live) + " blocks leaked"; });
            // still usable
            x.insert(u); y.erase(v);
            std::string g = inspect(x, unite(a.m, range(u, u + 1)));
            c.check(g.empty(), "rangeset-unusable", [&] { return desc + ": a later insert gives " + g; });
        } else {
            c.count("completed");
            if (k == 0) c.count("no_allocation_needed");
            c.check(gm == em, "rangeset-result", [&] { return desc + ": result " + show(gm) + " instead of " + show(em); });
            std::string f = inspect(y, b.m);
            c.check(f.empty(), "rangeset-operand-changed", [&] { return desc + ": " + f; });
            c.sample([&] { return desc + ": " + std::to_string(made) + " allocations, each failed in turn"; });
            break;
        }
        if (k > 200) { c.fail("rangeset-too-many-allocations", desc); break; }
    }
}
