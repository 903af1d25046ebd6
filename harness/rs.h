// A reference model of sets of 64-bit integers, and operations on RangeSets paired with it.
#pragma once
#include "vh.h"
#include <algorithm>
#include "lsst/sphgeom/RangeSet.h"

namespace rs {
using lsst::sphgeom::RangeSet;
using namespace vh;
typedef unsigned __int128 U;
constexpr U TOP = static_cast<U>(1) << 64;
typedef std::vector<std::pair<U, U>> Model;  // sorted, disjoint, non-adjacent [first, last)

inline std::string hex(U x) { char b[40]; if (x >= TOP) return "2^64"; std::snprintf(b, sizeof b, "%#" PRIx64, static_cast<std::uint64_t>(x)); return b; }
inline std::string show(Model const & m) { std::string s = "{"; for (auto const & p : m) { s += "[" + hex(p.first) + "," + hex(p.second) + ")"; if (s.size() > 400) { s += "..."; break; } } return s + "}"; }

inline Model norm(Model m) {
    std::sort(m.begin(), m.end());
    Model o;
    for (auto const & p : m) {
        if (p.first >= p.second) continue;
        if (!o.empty() && p.first <= o.back().second) o.back().second = std::max(o.back().second, p.second);
        else o.push_back(p);
    }
    return o;
}
inline bool has(Model const & m, U x) {
    auto it = std::upper_bound(m.begin(), m.end(), std::make_pair(x, TOP + 1));
    if (it == m.begin()) return false;
    --it;
    return x >= it->first && x < it->second;
}
// Evaluates a boolean function of membership in a and b over all elementary segments.
template <typename F> Model combine(Model const & a, Model const & b, F f) {
    std::vector<U> cuts = {0, TOP};
    for (auto const * m : {&a, &b}) for (auto const & p : *m) { cuts.push_back(p.first); cuts.push_back(p.second); }
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    Model o;
    size_t i = 0, j = 0;
    for (size_t k = 0; k + 1 < cuts.size(); ++k) {
        U x = cuts[k];
        while (i < a.size() && a[i].second <= x) ++i;
        while (j < b.size() && b[j].second <= x) ++j;
        bool ina = i < a.size() && a[i].first <= x, inb = j < b.size() && b[j].first <= x;
        if (f(ina, inb)) {
            if (!o.empty() && o.back().second == x) o.back().second = cuts[k + 1];
            else o.push_back({x, cuts[k + 1]});
        }
    }
    return o;
}
inline Model unite(Model const & a, Model const & b) { return combine(a, b, [](bool x, bool y) { return x || y; }); }
inline Model meet(Model const & a, Model const & b) { return combine(a, b, [](bool x, bool y) { return x && y; }); }
inline Model minus(Model const & a, Model const & b) { return combine(a, b, [](bool x, bool y) { return x && !y; }); }
inline Model sym(Model const & a, Model const & b) { return combine(a, b, [](bool x, bool y) { return x != y; }); }
inline Model comp(Model const & a) { return combine(a, {}, [](bool x, bool) { return !x; }); }
// The set denoted by a range whose last value is below its first: it wraps around; equal values denote everything.
inline Model range(std::uint64_t f, std::uint64_t l) {
    if (f == l) return {{0, TOP}};
    if (l == 0) return {{f, TOP}};
    if (f < l) return {{f, l}};
    return norm({{0, l}, {f, TOP}});
}
inline Model simplify(Model const & m, unsigned n) {
    if (n == 0 || m.empty()) return m;
    if (n >= 64) return {{0, TOP}};
    U k = (static_cast<U>(1) << n) - 1;
    Model o;
    for (auto const & p : m) o.push_back({p.first & ~k, std::min(TOP, (p.second + k) & ~k)});
    return norm(o);
}
// Ranges are clipped to the universe.
inline Model scale(Model const & m, std::uint64_t i) {
    Model o;
    for (auto const & p : m) {
        // values are at most 2^64 and i < 2^64, so check for 128-bit overflow by division
        auto mul = [&](U v) -> U { return (i != 0 && v > TOP / i) ? TOP : std::min(TOP, v * i); };
        // a full upper end stays at the top of the universe
        U f = mul(p.first), l = p.second == TOP && i > 0 ? TOP : mul(p.second);
        o.push_back({f, l});
    }
    return norm(o);
}

inline Model modelOf(RangeSet const & s) {
    Model m;
    for (auto it = s.begin(), e = s.end(); it != e; ++it) {
        auto t = *it;
        U f = std::get<0>(t), l = std::get<1>(t);
        m.push_back({f, l == 0 ? TOP : l});
        if (m.size() > 1000000) break;
    }
    return m;
}

// Checks every observation that can be made of a single set. Returns a problem or "".
inline std::string inspect(RangeSet const & s, Model const & m) {
    if (!s.isValid()) return "isValid() is false";
    Model g = modelOf(s);
    if (g != m) return "ranges are " + show(g) + " instead of " + show(m);
    if (s.size() != m.size()) return "size() is " + std::to_string(s.size()) + " instead of " + std::to_string(m.size());
    if (s.empty() != m.empty()) return "empty() is wrong";
    if (s.full() != (m.size() == 1 && m[0].first == 0 && m[0].second == TOP)) return "full() is wrong";
    U card = 0;
    for (auto const & p : m) card += p.second - p.first;
    if (s.cardinality() != static_cast<std::uint64_t>(card)) return "cardinality() is " + hex(s.cardinality()) + " instead of " + hex(card);
    // reverse and random access iteration
    auto b = s.begin(), e = s.end();
    if (e - b != static_cast<std::ptrdiff_t>(m.size())) return "end() - begin() is wrong";
    if (s.cbegin() != b || s.cend() != e) return "cbegin() or cend() differ from begin() or end()";
    auto it = e;
    for (size_t i = m.size(); i-- > 0;) {
        --it;
        auto t = *it;
        auto u = b[static_cast<std::ptrdiff_t>(i)];
        auto v = *(b + static_cast<std::ptrdiff_t>(i));
        auto w = *(e - static_cast<std::ptrdiff_t>(m.size() - i));
        U f = std::get<0>(t), l = std::get<1>(t) == 0 ? TOP : std::get<1>(t);
        if (std::make_pair(f, l) != m[i]) return "reverse iteration gives another range";
        if (t != u || t != v || t != w) return "random access iteration gives another range";
        if (!(it < e) || !(it >= b) || (it == e) || !(it != e) || it > e || !(it <= e)) return "iterator comparison is wrong";
    }
    if (it != b) return "reverse iteration does not end at begin()";
    // the complement's ranges
    Model cm = comp(m), cg;
    for (auto i = s.beginc(), ie = s.endc(); i != ie; ++i) { auto t = *i; cg.push_back({std::get<0>(t), std::get<1>(t) == 0 ? TOP : std::get<1>(t)}); if (cg.size() > 1000000) break; }
    if (cg != cm) return "iteration over the complement gives " + show(cg) + " instead of " + show(cm);
    return "";
}

// Values concentrated near a few anchors, so that operations interact, plus the extremes.
struct Values {
    std::vector<std::uint64_t> anchors;
    explicit Values(Rng & r) {
        anchors = {0, 0};
        int n = r.range(0, 3);
        for (int i = 0; i < n; ++i) anchors.push_back(r.u64() >> r.range(0, 60));
        if (r.chance(.5)) anchors.push_back(1ull << 63);
    }
    std::uint64_t operator()(Rng & r) const {
        if (r.chance(.05)) return r.u64() >> r.range(0, 63);
        std::uint64_t a = anchors[r.below(anchors.size())];
        return a + static_cast<std::uint64_t>(static_cast<std::int64_t>(r.range(-12, 12)));
    }
};
}  // namespace rs
