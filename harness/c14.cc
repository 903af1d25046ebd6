// C14: RangeSet histories against a reference model of sets of 64-bit integers.
#include "rs.h"
#include <sstream>
using namespace rs;

namespace {
struct Pair { RangeSet s; Model m; };

void verify(Ctx & c, Pair const & p, std::string const & log, char const * key) {
    c.eval(hashBytes(p.m.data(), p.m.size() * sizeof(p.m[0]), 7));
    std::string e = inspect(p.s, p.m);
    if (!e.empty()) { c.fail(key, log + " => " + e); throw StopCase(); }
}

void queries(Ctx & c, Pair const & a, Pair const & b, Values const & val, std::string const & log) {
    Rng & r = c.rng;
    auto expect = [&](bool got, bool want, char const * what, std::string const & arg) {
        c.eval();
        if (got != want) { c.fail("rangeset-query", log + " => " + show(a.m) + "." + what + "(" + arg + ") is " + (got ? "true" : "false")); throw StopCase(); }
    };
    for (int i = 0; i < 3; ++i) {
        std::uint64_t u = val(r), v = val(r);
        if (r.chance(.1)) v = u;
        std::string su = hex(u), suv = hex(u) + "," + hex(v);
        bool in = has(a.m, u);
        expect(a.s.contains(u), in, "contains", su);
        expect(a.s.intersects(u), in, "intersects", su);
        expect(a.s.isDisjointFrom(u), !in, "isDisjointFrom", su);
        expect(a.s.isWithin(u), minus(a.m, range(u, u + 1)).empty(), "isWithin", su);
        Model m = range(u, v);
        expect(a.s.contains(u, v), minus(m, a.m).empty(), "contains", suv);
        expect(a.s.intersects(u, v), !meet(m, a.m).empty(), "intersects", suv);
        expect(a.s.isDisjointFrom(u, v), meet(m, a.m).empty(), "isDisjointFrom", suv);
        expect(a.s.isWithin(u, v), minus(a.m, m).empty(), "isWithin", suv);
        c.count("range_queries", 8);
    }
    std::string sb = show(b.m);
    expect(a.s.contains(b.s), minus(b.m, a.m).empty(), "contains", sb);
    expect(a.s.isWithin(b.s), minus(a.m, b.m).empty(), "isWithin", sb);
    expect(a.s.intersects(b.s), !meet(a.m, b.m).empty(), "intersects", sb);
    expect(a.s.isDisjointFrom(b.s), meet(a.m, b.m).empty(), "isDisjointFrom", sb);
    expect(a.s == b.s, a.m == b.m, "operator==", sb);
    expect(a.s != b.s, a.m != b.m, "operator!=", sb);
    c.count("set_queries", 6);
}

void history(Ctx & c, int steps, Values const & val, int initial, Pair * large = nullptr) {
    Rng & r = c.rng;
    Pair p[3];
    if (large) for (int k = 0; k < 3; ++k) std::swap(p[k], large[k]);
    std::string log;
    auto note = [&](std::string const & s) { if (log.size() < 2500) log += s + "; "; };
    for (int k = 0; k < 3; ++k) {
        for (int i = 0; i < initial; ++i) {
            std::uint64_t u = val(r), v = u + r.below(8);
            p[k].s.insert(u, v); p[k].m = unite(p[k].m, range(u, v));
        }
        if (initial) { note("s" + std::to_string(k) + "=" + show(p[k].m)); verify(c, p[k], log, "rangeset-initial"); }
    }
    for (int step = 0; step < steps; ++step) {
        size_t i = r.below(3), j = r.below(3), k = r.below(3);
        Pair & a = p[i]; Pair & b = p[j];
        std::uint64_t u = val(r), v = val(r);
        if (r.chance(.5)) v = u + r.below(12);
        if (u == v && r.chance(.9)) v = u + 1;
        std::string id = "s" + std::to_string(i), jd = "s" + std::to_string(j), args = "(" + hex(u) + "," + hex(v) + ")";
        Model am = a.m, bm = b.m;
        int op = r.range(0, 31);
        // Keep the result that would be the receiver's in `other` for the returning forms.
        switch (op) {
            case 0: case 1: case 2: case 3: note(id + ".insert" + args); a.s.insert(u, v); a.m = unite(am, range(u, v)); break;
            case 4: case 5: case 6: note(id + ".erase" + args); a.s.erase(u, v); a.m = minus(am, range(u, v)); break;
            case 7: note(id + ".insert(" + hex(u) + ")"); a.s.insert(u); a.m = unite(am, range(u, u + 1)); break;
            case 8: note(id + ".erase(" + hex(u) + ")"); a.s.erase(u); a.m = minus(am, range(u, u + 1)); break;
            case 9: note(id + ".insert tuple" + args); a.s.insert(std::make_tuple(u, v)); a.m = unite(am, range(u, v)); break;
            case 10: note(id + ".erase tuple" + args); a.s.erase(std::make_tuple(u, v)); a.m = minus(am, range(u, v)); break;
            case 11: case 12: {
                note(id + ".complement()"); RangeSet & x = a.s.complement(); a.m = comp(am);
                c.check(&x == &a.s, "rangeset-return", [&] { return log; });
                break;
            }
            case 13: { note("s" + std::to_string(k) + "=" + id + ".complemented()"); Pair t; t.s = r.chance(.5) ? a.s.complemented() : ~a.s; t.m = comp(am); verify(c, a, log, "rangeset-operand"); p[k] = t; break; }
            case 14: case 15: case 16: case 17: {
                int w = op - 14;
                note("s" + std::to_string(k) + "=" + id + "|&-^"[w] + jd);
                Pair t;
                bool named = r.chance(.5);
                switch (w) {
                    case 0: t.s = named ? a.s.join(b.s) : a.s | b.s; t.m = unite(am, bm); break;
                    case 1: t.s = named ? a.s.intersection(b.s) : a.s & b.s; t.m = meet(am, bm); break;
                    case 2: t.s = named ? a.s.difference(b.s) : a.s - b.s; t.m = minus(am, bm); break;
                    default: t.s = named ? a.s.symmetricDifference(b.s) : a.s ^ b.s; t.m = sym(am, bm); break;
                }
                verify(c, t, log, "rangeset-setop"); verify(c, a, log, "rangeset-operand"); verify(c, b, log, "rangeset-operand");
                p[k] = t;
                break;
            }
            case 18: case 19: case 20: case 21: {
                int w = op - 18;
                note(id + "|&-^"[w] + std::string("=") + jd);
                RangeSet * x;
                switch (w) {
                    case 0: x = &(a.s |= b.s); a.m = unite(am, bm); break;
                    case 1: x = &(a.s &= b.s); a.m = meet(am, bm); break;
                    case 2: x = &(a.s -= b.s); a.m = minus(am, bm); break;
                    default: x = &(a.s ^= b.s); a.m = sym(am, bm); break;
                }
                c.check(x == &a.s, "rangeset-return", [&] { return log; });
                if (i != j) verify(c, b, log, "rangeset-operand");
                break;
            }
            case 22: case 23: {
                unsigned n = static_cast<unsigned>(r.chance(.8) ? r.range(0, 5) : r.pick({0, 6, 32, 62, 63, 64, 65, 200}));
                note(id + ".simplify(" + std::to_string(n) + ")");
                if (op == 22) { a.s.simplify(n); a.m = simplify(am, n); }
                else { Pair t; t.s = a.s.simplified(n); t.m = simplify(am, n); verify(c, a, log, "rangeset-operand"); verify(c, t, log, "rangeset-simplify"); p[k] = t; }
                break;
            }
            case 24: case 25: {
                std::uint64_t n = r.chance(.5) ? r.pick({0ull, 1ull, 2ull, 4ull, 3ull}) : r.chance(.5) ? 1ull << r.range(0, 63) : r.u64() >> r.range(0, 63);
                if (n == 0 && r.chance(.7)) n = 1;
                note(id + ".scale(" + hex(n) + ")");
                if (op == 24) { a.s.scale(n); a.m = n == 0 ? Model() : scale(am, n); }
                else { Pair t; t.s = a.s.scaled(n); t.m = n == 0 ? Model() : scale(am, n); verify(c, a, log, "rangeset-operand"); verify(c, t, log, "rangeset-scale"); if (r.chance(.3)) p[k] = t; }
                break;
            }
            case 26: if (r.chance(.3)) { note(id + ".clear()"); a.s.clear(); a.m.clear(); } break;
            case 27: if (r.chance(.3)) { note(id + ".fill()"); a.s.fill(); a.m = {{0, TOP}}; } break;
            case 28: note("swap(" + id + "," + jd + ")"); if (r.chance(.5)) a.s.swap(b.s); else { using std::swap; swap(a.s, b.s); } std::swap(a.m, b.m); verify(c, b, log, "rangeset-swap"); break;
            case 29: note(id + "=" + jd); a.s = b.s; a.m = bm; verify(c, b, log, "rangeset-operand"); break;
            case 30: {  // rebuild from the ranges, and from individual values
                if (am.size() > 3000) break;
                note(id + " rebuilt");
                std::vector<std::tuple<std::uint64_t, std::uint64_t>> v(a.s.begin(), a.s.end());
                if (v.size() < 3000 && r.chance(.5)) std::reverse(v.begin(), v.end());
                RangeSet t(v);
                RangeSet t2(v.begin(), v.end());
                Pair x{t, am};
                if (am.empty()) x.m.clear();
                verify(c, x, log, "rangeset-rebuild");
                c.check(t == t2, "rangeset-rebuild", [&] { return log; });
                a.s = std::move(t);
                break;
            }
            default: {  // constructors
                Pair t;
                switch (r.range(0, 4)) {
                    case 0: t.s = RangeSet(u, v); t.m = range(u, v); break;
                    case 1: t.s = RangeSet(u); t.m = range(u, u + 1); break;
                    case 2: t.s = RangeSet(std::make_tuple(u, v)); t.m = range(u, v); break;
                    case 3: t.s = RangeSet{u, v, u + 1}; t.m = unite(unite(range(u, u + 1), range(v, v + 1)), range(u + 1, u + 2)); break;
                    default: { std::uint64_t w = val(r); if (w == v) ++w; t.s = RangeSet{{u, v}, {v, w}}; t.m = unite(range(u, v), range(v, w)); break; }
                }
                note("construct" + args);
                verify(c, t, log, "rangeset-constructor");
                p[k] = t;
                break;
            }
        }
        c.count("operations");
        verify(c, a, log, "rangeset-update");
        if (r.chance(.4)) queries(c, a, b, val, log);
        // keep sets small
        for (auto & x : p) if (x.m.size() > (large ? 400000u : 60u)) { x.s.clear(); x.m.clear(); note("clear"); }
    }
    c.sample([&] { return log.substr(0, 400); });
}
}  // namespace

SECTION(histories, 12000) { Values val(c.rng); history(c, 40, val, 0); }

SECTION(dense, 6000) {
    // sets with many ranges around one anchor at either end of the universe or in the middle
    Values val(c.rng);
    history(c, 25, val, c.rng.range(3, 12));
}

// Sets of many thousands of ranges: sizes that do not fit in 8 or 16 bits.
SECTION(many_ranges, 96) {
    Rng & r = c.rng;
    Values val(r);
    val.anchors = {0};
    Pair p[3];
    for (int k = 0; k < 3; ++k) {
        int n = k == 2 ? 5 : static_cast<int>(r.logUni(100, r.chance(.25) ? 100000 : 5000));
        std::uint64_t at = k == 1 && r.chance(.5) && !p[0].m.empty() ? static_cast<std::uint64_t>(p[0].m[r.below(p[0].m.size())].first) : r.u64() >> r.range(1, 60);
        double gap = r.logUni(1.5, 1e5), len = r.logUni(1.1, 1e5);
        std::vector<std::pair<std::uint64_t, std::uint64_t>> v;
        for (int i = 0; i < n; ++i) {
            std::uint64_t f = at + 1 + static_cast<std::uint64_t>(r.uni() * gap), l = f + 1 + static_cast<std::uint64_t>(r.uni() * len);
            if (l < at) break;  // the end of the universe
            v.push_back({f, l});
            at = l;
        }
        p[k].m.assign(v.begin(), v.end());
        p[k].m = norm(p[k].m);
        for (int i = 0; i < 8 && !v.empty(); ++i) val.anchors.push_back(r.pick(v).first);
        // ascending, descending or shuffled; out of order insertion is quadratic
        if (n < 3000) { int o = r.range(0, 2); if (o == 1) std::reverse(v.begin(), v.end()); if (o == 2) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }
        // the sets are joined from parts, since each insertion copies the set
        RangeSet part;
        for (size_t i = 0; i < v.size(); ++i) {
            part.insert(v[i].first, v[i].second);
            if (part.size() >= 2000 || i + 1 == v.size()) { p[k].s |= part; part.clear(); }
        }
        verify(c, p[k], show(p[k].m), "rangeset-large");
        c.count("ranges in large sets", p[k].m.size());
    }
    history(c, 14, val, 0, p);
}

// All sets over a tiny universe embedded at the edges: every pair of operands, every binary operation and range update.
SECTION(small_universe_all, 4096) {
    // bits 0..5 denote 0..5, bits 6..11 denote 2^64-6..2^64-1
    auto value = [](int b) -> std::uint64_t { return b < 6 ? static_cast<std::uint64_t>(b) : static_cast<std::uint64_t>(b - 12); };
    unsigned bitsA = static_cast<unsigned>(c.index);
    Pair a;
    auto build = [&](unsigned m) { Pair p; for (int b = 0; b < 12; ++b) if (m >> b & 1) { p.s.insert(value(b)); p.m = unite(p.m, range(value(b), value(b) + 1)); } return p; };
    a = build(bitsA);
    verify(c, a, "mask " + std::to_string(bitsA), "rangeset-small");
    std::string log = show(a.m);
    for (int f = 0; f < 12; ++f) for (int l = 0; l < 12; ++l) {
        std::uint64_t u = value(f), v = value(l);
        Pair x = a, y = a;
        std::string lg = log + " with " + hex(u) + "," + hex(v);
        x.s.insert(u, v); x.m = unite(x.m, range(u, v)); verify(c, x, lg + " inserted", "rangeset-small-insert");
        y.s.erase(u, v); y.m = minus(y.m, range(u, v)); verify(c, y, lg + " erased", "rangeset-small-erase");
        Model m = range(u, v);
        bool ok = a.s.contains(u, v) == minus(m, a.m).empty() && a.s.intersects(u, v) == !meet(m, a.m).empty() && a.s.isWithin(u, v) == minus(a.m, m).empty() && a.s.isDisjointFrom(u, v) == meet(m, a.m).empty();
        c.check(ok, "rangeset-small-query", [&] { return lg; });
        c.eval();
    }
    for (int t = 0; t < 24; ++t) {
        unsigned bb = t == 0 ? ~bitsA & 4095 : static_cast<unsigned>(c.rng.below(4096));
        Pair b = build(bb);
        if (c.rng.chance(.3)) { b.s.complement(); b.m = comp(b.m); }
        if (c.rng.chance(.1)) { a.s.complement(); a.m = comp(a.m); }
        std::string lg = show(a.m) + " and " + show(b.m);
        Pair x;
        x = {a.s | b.s, unite(a.m, b.m)}; verify(c, x, lg + " joined", "rangeset-small-op");
        x = {a.s & b.s, meet(a.m, b.m)}; verify(c, x, lg + " intersected", "rangeset-small-op");
        x = {a.s - b.s, minus(a.m, b.m)}; verify(c, x, lg + " subtracted", "rangeset-small-op");
        x = {a.s ^ b.s, sym(a.m, b.m)}; verify(c, x, lg + " xored", "rangeset-small-op");
        c.check(a.s.contains(b.s) == minus(b.m, a.m).empty() && a.s.intersects(b.s) == !meet(a.m, b.m).empty(), "rangeset-small-query", [&] { return lg; });
        for (unsigned n = 0; n < 4; ++n) { x = {a.s.simplified(n), simplify(a.m, n)}; verify(c, x, lg + " simplified", "rangeset-small-simplify"); }
    }
}
