// C19: chunks and sub-chunks tile the sky; queries for regions miss none of them.
#include "spec.h"
#include <set>
#include "lsst/sphgeom/Chunker.h"
using namespace vh;

namespace {

// The subdivision as seen through public accessors, with nominal bounds in long double.
struct Grid {
    Chunker const & k;
    int n, m;                  // stripes, sub-stripes per stripe
    std::vector<int> nc;       // chunks per stripe
    std::vector<int> nsc;      // sub-chunks per chunk, for every sub-stripe
    int maxNsc = 0;

    explicit Grid(Chunker const & c) : k(c), n(c.getNumStripes()), m(c.getNumSubStripesPerStripe()), nc(static_cast<size_t>(n), 0) {
        for (int id : k.getAllChunks()) { int s = k.getStripe(id); if (s >= 0 && s < n) ++nc[static_cast<size_t>(s)]; }
        for (int ss = 0; ss < n * m; ++ss) {
            double w = k.getSubChunkBoundingBox(ss, 0).getWidth().asRadians();
            // the box is dilated by about 1e-11 / cos(latitude)
            LD t = std::max(fabsl(-PIL / 2 + ss * PIL / (n * m)), fabsl(-PIL / 2 + (ss + 1) * PIL / (n * m)));
            LD pad = PIL / 2 - t > 1e-10L ? 2 * asinl(std::min(1.0L, sinl(5e-12L) / cosl(t))) : 0;
            int total = static_cast<int>(std::lround(static_cast<double>(2 * PIL / (w > 6.28 ? 2 * PIL : w - pad))));
            int c0 = nc[static_cast<size_t>(ss / m)];
            nsc.push_back(c0 ? static_cast<int>(std::lround(static_cast<double>(total) / c0)) : 0);
            maxNsc = std::max(maxNsc, nsc.back());
        }
    }
    LD stripeLat(int s) const { return s * PIL / n - PIL / 2; }
    LD subLat(int ss) const { return ss * PIL / (static_cast<LD>(n) * m) - PIL / 2; }
    int id(int s, int c) const { return s * 2 * n + c; }
    // all chunks (stripe, chunk) whose closed nominal box contains the point
    std::vector<std::pair<int, int>> chunksAt(LD lon, LD lat, LD tol = 1e-17L) const {
        std::vector<std::pair<int, int>> v;
        int s0 = static_cast<int>(floorl((lat + PIL / 2) / PIL * n));
        for (int s = std::max(0, s0 - 1); s <= std::min(n - 1, s0 + 1); ++s) {
            if (!(stripeLat(s) <= lat + tol && lat - tol <= stripeLat(s + 1))) continue;
            int q = nc[static_cast<size_t>(s)];
            for (int c : around(lon, q, tol)) v.push_back({s, c});
        }
        return v;
    }
    static std::vector<int> around(LD lon, int q, LD tol) {
        std::vector<int> v;
        if (q <= 0) return v;
        int c0 = static_cast<int>(floorl(lon / (2 * PIL) * q));
        std::set<int> seen;
        for (int c = c0 - 1; c <= c0 + 1; ++c) {
            int d = ((c % q) + q) % q;
            LD a = d * 2 * PIL / q, b = (d + 1) * 2 * PIL / q;
            if ((a <= lon + tol && lon - tol <= b) && seen.insert(d).second) v.push_back(d);
        }
        return v;
    }
    // sub-chunks (sub-stripe, index along the stripe) of a chunk whose closed nominal box contains the point
    std::vector<std::pair<int, int>> subChunksAt(int s, int c, LD lon, LD lat, LD tol = 1e-17L) const {
        std::vector<std::pair<int, int>> v;
        int s0 = static_cast<int>(floorl((lat + PIL / 2) / PIL * n * m));
        for (int ss = std::max(s * m, s0 - 1); ss <= std::min((s + 1) * m - 1, s0 + 1); ++ss) {
            if (!(subLat(ss) <= lat + tol && lat - tol <= subLat(ss + 1))) continue;
            int q = nsc[static_cast<size_t>(ss)];
            for (int sc : around(lon, q * nc[static_cast<size_t>(s)], tol)) if (q && sc / q == c) v.push_back({ss, sc});
        }
        return v;
    }
    int subId(int ss, int sc) const { return (ss % m) * maxNsc + sc % nsc[static_cast<size_t>(ss)]; }
};

std::pair<int, int> config(Rng & r, int limit) {
    int n = r.chance(.3) ? r.range(1, 8) : static_cast<int>(r.logUni(1, limit));
    int m = r.chance(.3) ? r.range(1, 4) : static_cast<int>(r.logUni(1, std::max(1.5, static_cast<double>(limit) / n)));
    return {std::max(1, n), std::max(1, m)};
}

// Points on stripe and chunk boundaries, at poles, next to longitude 0, anywhere.
void somePoint(Rng & r, Grid const & g, LD & lon, LD & lat) {
    int s = r.range(0, g.n - 1), ss = s * g.m + r.range(0, g.m - 1);
    switch (r.range(0, 5)) {
        case 0: lat = g.stripeLat(s + r.range(0, 1)); break;
        case 1: lat = g.subLat(ss + r.range(0, 1)); break;
        case 2: lat = r.pick({-PI / 2, PI / 2, 0.0}); break;
        default: lat = asinl(r.uni(-1, 1)); if (r.chance(.3)) lat = g.subLat(ss) + r.uni() * PIL / (static_cast<LD>(g.n) * g.m);
    }
    int q = g.nc[static_cast<size_t>(s)], qq = q * g.nsc[static_cast<size_t>(ss)];
    switch (r.range(0, 5)) {
        case 0: lon = q ? r.range(0, q) * 2 * PIL / q : 0; break;
        case 1: lon = qq ? r.range(0, qq) * 2 * PIL / qq : 0; break;
        case 2: lon = r.pick({0.0, 2 * PI, PI, 1e-13}); break;
        default: lon = r.uni(0, 2 * PI);
    }
    if (r.chance(.4)) lat += (r.chance(.5) ? 1 : -1) * r.logUni(1e-18, 1e-10);
    if (r.chance(.4)) lon += (r.chance(.5) ? 1 : -1) * r.logUni(1e-18, 1e-10);
    lon = std::max<LD>(0, std::min<LD>(lon, 2 * PI));
    lat = std::max<LD>(-PI / 2, std::min<LD>(lat, PI / 2));
    lon = static_cast<double>(lon); lat = static_cast<double>(lat);
}
}  // namespace

// Identifiers, validity, geometry of the whole subdivision.
SECTION(identifiers, 2400) {
    Rng & r = c.rng;
    auto [n, m] = config(r, c.index % 40 == 0 ? 2000 : 150);
    if (c.index < 100) { n = 1 + static_cast<int>(c.index % 10); m = 1 + static_cast<int>(c.index / 10); }
    Chunker k(n, m);
    Grid g(k);
    auto msg = [&, n = n, m = m] { return "Chunker(" + std::to_string(n) + ", " + std::to_string(m) + ")"; };
    c.eval(mix(static_cast<std::uint64_t>(n)) ^ static_cast<std::uint64_t>(m));
    c.check(k.getNumStripes() == n && k.getNumSubStripesPerStripe() == m, "parameters", msg);
    auto ids = k.getAllChunks();
    std::set<int> all(ids.begin(), ids.end());
    c.check(all.size() == ids.size(), "duplicate-chunks", msg);
    for (int s = 0; s < n; ++s) c.check(g.nc[static_cast<size_t>(s)] >= 1, "empty-stripe", msg);
    // decoding
    std::set<std::pair<int, int>> decoded;
    for (int id : ids) {
        int s = k.getStripe(id), ch = k.getChunk(id, s);
        bool ok = s >= 0 && s < n && ch >= 0 && ch < g.nc[static_cast<size_t>(s)] && decoded.insert({s, ch}).second;
        if (!ok) { c.fail("chunk-decoding", msg() + " id " + std::to_string(id) + " stripe " + std::to_string(s) + " chunk " + std::to_string(ch)); break; }
    }
    // validity, everywhere for small configurations, otherwise around stripe ends
    std::vector<int> probe{-1, -2, -2 * n, -2 * n + 1, -2 * n - 1, 0, std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 2 * n * n, 2 * n * n - 1, 2 * n * n + 1};
    if (n <= 60) for (int i = -4 * n; i <= 2 * n * n + 4 * n; ++i) probe.push_back(i);
    else for (int s = 0; s < n; ++s) for (int d = -2; d <= 2; ++d) { probe.push_back(g.id(s, 0) + d); probe.push_back(g.id(s, g.nc[static_cast<size_t>(s)]) + d); }
    for (int i = 0; i < 50; ++i) probe.push_back(static_cast<int>(r.u64()));
    for (int i : probe) {
        c.eval();
        bool v = k.valid(i);
        if (v != (all.count(i) != 0)) { c.fail("valid", msg() + " says " + std::to_string(v) + " for " + std::to_string(i)); break; }
    }
    // geometry of stripes: the nominal boxes are covered by the boxes reported, which are hardly larger
    LD area = 0;
    bool whole = ids.size() <= 3000;
    std::vector<int> sample = whole ? ids : std::vector<int>();
    if (!whole) for (int i = 0; i < 300; ++i) sample.push_back(r.pick(ids));
    for (int id : sample) {
        int s = k.getStripe(id), ch = k.getChunk(id, s), q = g.nc[static_cast<size_t>(s)];
        Box b = k.getChunkBoundingBox(s, ch);
        area += static_cast<LD>(b.getArea());
        LD la = ch * 2 * PIL / q, lb = (ch + 1) * 2 * PIL / q;
        LD ta = g.stripeLat(s), tb = g.stripeLat(s + 1), mt = std::max(fabsl(ta), fabsl(tb));
        LD pad = PIL / 2 - mt > 1e-10L ? asinl(std::min(1.0L, sinl(5e-12L) / cosl(mt))) : PIL;
        auto bm = [&] { return msg() + " stripe " + std::to_string(s) + " chunk " + std::to_string(ch) + " " + describe(b); };
        c.eval(mix(static_cast<std::uint64_t>(id)) ^ mix(static_cast<std::uint64_t>(n) * 100003 + static_cast<std::uint64_t>(m)));
        c.check(b.getLat().getA().asRadians() <= std::max<LD>(ta, -PI / 2) && b.getLat().getB().asRadians() >= std::min<LD>(tb, PI / 2), "chunk-box-latitude", bm);
        c.check(b.getLat().getA().asRadians() >= ta - 1e-9L && b.getLat().getB().asRadians() <= tb + 1e-9L, "chunk-box-too-high", bm);
        c.check(q == 1 ? b.getLon().isFull() : b.getWidth().asRadians() >= lb - la && b.getWidth().asRadians() <= lb - la + 4 * pad + 1e-9L, "chunk-box-width", bm);
        for (LD t : {la, (la + lb) / 2, lb}) {
            LonLat p{NormalizedAngle(std::min(2 * PI, static_cast<double>(t))), Angle(std::max(-PI / 2, std::min(PI / 2, static_cast<double>((ta + tb) / 2))))};
            c.check(b.contains(p), "chunk-box-longitude", bm);
        }
    }
    if (whole) c.check(fabsl(area - 4 * PIL) < 1e-5L, "chunk-areas", [&] { return msg() + " total " + str(static_cast<double>(area)); });
    // points of a stripe whose longitudes differ by a (sub-)chunk width are at least as far apart as the (sub-)stripe is high
    for (int i = 0; i < std::min(n, 100); ++i) {
        int s = n <= 100 ? i : r.range(0, n - 1), ss = s * m + r.range(0, m - 1);
        auto separation = [&](LD t, LD w) { return 2 * asinl(std::min(1.0L, cosl(t) * sinl(std::min(w, PIL) / 2))); };
        LD t = std::max(fabsl(g.stripeLat(s)), fabsl(g.stripeLat(s + 1)));
        int q = g.nc[static_cast<size_t>(s)];
        if (q > 1) c.check(separation(t, 2 * PIL / q) >= PIL / n * (1 - 1e-9L), "chunk-too-narrow", [&] { return msg() + " stripe " + std::to_string(s) + " has " + std::to_string(q) + " chunks"; });
        if (PIL / 2 - t > 1e-5L && n > 1) c.check(separation(t, 2 * PIL / (q + 1)) < PIL / n * (1 + 1e-9L), "chunk-too-wide", [&] { return msg() + " stripe " + std::to_string(s) + " has only " + std::to_string(q) + " chunks"; });
        t = std::max(fabsl(g.subLat(ss)), fabsl(g.subLat(ss + 1)));
        int qq = q * g.nsc[static_cast<size_t>(ss)];
        if (qq > 1) c.check(separation(t, 2 * PIL / qq) >= PIL / (static_cast<LD>(n) * m) * (1 - 1e-9L), "sub-chunk-too-narrow", [&] { return msg() + " sub-stripe " + std::to_string(ss); });
    }
    // sub-chunks
    for (int i = 0; i < 20; ++i) {
        int id = r.pick(ids), s = k.getStripe(id), ch = k.getChunk(id, s);
        auto sub = k.getAllSubChunks(id);
        std::set<int> have(sub.begin(), sub.end()), want;
        for (int y = 0; y < m; ++y) for (int x = 0; x < g.nsc[static_cast<size_t>(s * m + y)]; ++x) want.insert(y * g.maxNsc + x);
        c.eval();
        c.check(have.size() == sub.size(), "duplicate-sub-chunks", [&] { return msg() + " chunk " + std::to_string(id); });
        c.check(have == want, "sub-chunk-ids", [&] { return msg() + " chunk " + std::to_string(id) + " has " + std::to_string(have.size()) + " sub-chunks, not " + std::to_string(want.size()); });
        LD sum = 0;
        if (sub.size() <= 2000) {
            for (int y = 0; y < m; ++y) for (int x = 0; x < g.nsc[static_cast<size_t>(s * m + y)]; ++x) sum += static_cast<LD>(k.getSubChunkBoundingBox(s * m + y, ch * g.nsc[static_cast<size_t>(s * m + y)] + x).getArea());
            LD box = static_cast<LD>(2 * PIL) / g.nc[static_cast<size_t>(s)] * (sinl(g.stripeLat(s + 1)) - sinl(g.stripeLat(s)));
            c.check(fabsl(sum - box) < box * 1e-6L + 1e-10L * static_cast<LD>(sub.size()), "sub-chunk-areas", [&] { return msg() + " chunk " + std::to_string(id) + " " + str(static_cast<double>(sum)) + " vs " + str(static_cast<double>(box)); });
        }
    }
    Chunker k2(n, m), k3(n + 1, m), k4(n, m + 1);
    c.check(k == k2 && !(k != k2) && k != k3 && !(k == k3) && k != k4 && !(k == k4), "equality", msg);
    c.count("configurations");
    c.sample(msg);
}

// Every point is in a chunk and one of its sub-chunks.
SECTION(cover, 4000) {
    Rng & r = c.rng;
    auto [n, m] = config(r, c.index % 30 == 0 ? 3000 : 300);
    Chunker k(n, m);
    Grid g(k);
    for (int i = 0; i < 60; ++i) {
        LD lon, lat;
        somePoint(r, g, lon, lat);
        LonLat p{NormalizedAngle(static_cast<double>(lon)), Angle(static_cast<double>(lat))};
        UnitVector3d v(p);
        auto msg = [&, n = n, m = m] { return "Chunker(" + std::to_string(n) + ", " + std::to_string(m) + ") at " + str(static_cast<double>(lon)) + ", " + str(static_cast<double>(lat)); };
        c.eval(hashBytes(&p, sizeof p) ^ mix(static_cast<std::uint64_t>(n) << 20 | static_cast<std::uint64_t>(m)));
        auto at = g.chunksAt(lon, lat);
        // brute force over the stripe if the nominal chunks do not contain the point
        int found = 0, foundSub = 0;
        for (auto [s, ch] : at) {
            if (!k.getChunkBoundingBox(s, ch).contains(p) || !k.getChunkBoundingBox(s, ch).contains(v)) { c.fail("point-not-in-its-chunk", msg() + " stripe " + std::to_string(s) + " chunk " + std::to_string(ch)); continue; }
            ++found;
            auto sub = g.subChunksAt(s, ch, lon, lat);
            for (auto [ss, sc] : sub) {
                if (!k.getSubChunkBoundingBox(ss, sc).contains(p) || !k.getSubChunkBoundingBox(ss, sc).contains(v)) c.fail("point-not-in-its-sub-chunk", msg() + " sub-stripe " + std::to_string(ss) + " sub-chunk " + std::to_string(sc));
                else ++foundSub;
            }
            // Only sub-chunks right at the boundary may be ambiguous.
            if (sub.empty()) c.count("points on sub-chunk boundaries without nominal sub-chunk");
        }
        c.check(found > 0, "point-in-no-chunk", msg);
        c.check(foundSub > 0, "point-in-no-sub-chunk", msg);
        c.count(at.size() > 1 ? "points on chunk boundaries" : "points inside chunks");
    }
}

SECTION(queries, 20000) {
    Rng & r = c.rng;
    auto [n, m] = config(r, 120);
    Chunker k(n, m);
    Grid g(k);
    LD lon, lat;
    somePoint(r, g, lon, lat);
    UnitVector3d center = toUnit(lonLat(lon, lat));
    double size = r.pick({1.0, 1.0, 0.2, 3.0, 1e-3, 1e-9}) * PI / n;
    if (n * m < 30 && r.chance(.5)) size = anySize(r);
    size = std::min(size, std::max(0.05, std::min(PI, 150.0 * PI / (n * m))));
    int kind = r.range(0, NKINDS - 1);
    Spec s = makeSpec(r, kind, center, size);
    Region const & reg = *s.region;
    Box bb = reg.getBoundingBox();
    // enormous queries say nothing new
    if (!bb.isEmpty() && static_cast<double>(n) * m * n * m * 1.3 * bb.getArea() / (4 * PI) > 60000) { c.count("regions too large for the subdivision"); return; }
    auto msg = [&, n = n, m = m] { return "Chunker(" + std::to_string(n) + ", " + std::to_string(m) + ") and " + s.desc; };
    c.eval(hashRegion(reg) ^ mix(static_cast<std::uint64_t>(n) << 20 | static_cast<std::uint64_t>(m)));
    auto chunks = k.getChunksIntersecting(reg);
    auto subs = k.getSubChunksIntersecting(reg);
    std::set<int> set(chunks.begin(), chunks.end());
    c.check(set.size() == chunks.size(), "duplicate-chunks", msg);
    Box wide = bb.dilatedBy(Angle(1e-9));
    for (int id : chunks) {
        int st = k.getStripe(id), ch = k.getChunk(id, st);
        bool ok = st >= 0 && st < n && ch >= 0 && ch < g.nc[static_cast<size_t>(st)];
        if (!ok || !k.valid(id)) { c.fail("invalid-chunk", msg() + " gave " + std::to_string(id)); return; }
        if (!wide.intersects(k.getChunkBoundingBox(st, ch))) { c.fail("far-chunk", msg() + " gave " + std::to_string(id)); return; }
    }
    std::map<int, std::set<int>> subSet;
    for (auto const & sc : subs) {
        int st = k.getStripe(sc.chunkId), ch = k.getChunk(sc.chunkId, st);
        if (!k.valid(sc.chunkId)) { c.fail("invalid-chunk-of-sub-chunks", msg() + " gave " + std::to_string(sc.chunkId)); return; }
        if (subSet.count(sc.chunkId)) { c.fail("duplicate-chunk-of-sub-chunks", msg() + " gave " + std::to_string(sc.chunkId)); return; }
        auto & set2 = subSet[sc.chunkId];
        if (sc.subChunkIds.empty()) c.fail("no-sub-chunks", msg() + " gave " + std::to_string(sc.chunkId));
        for (int id : sc.subChunkIds) {
            int y = g.maxNsc ? id / g.maxNsc : -1, x = g.maxNsc ? id % g.maxNsc : -1;
            if (id < 0 || y >= m || x >= g.nsc[static_cast<size_t>(st * m + y)]) { c.fail("invalid-sub-chunk", msg() + " chunk " + std::to_string(sc.chunkId) + " gave " + std::to_string(id)); return; }
            if (!set2.insert(id).second) { c.fail("duplicate-sub-chunk", msg() + " chunk " + std::to_string(sc.chunkId) + " gave " + std::to_string(id)); return; }
            if (!wide.intersects(k.getSubChunkBoundingBox(st * m + y, ch * g.nsc[static_cast<size_t>(st * m + y)] + x))) { c.fail("far-sub-chunk", msg() + " chunk " + std::to_string(sc.chunkId) + " gave " + std::to_string(id)); return; }
        }
    }
    auto pts = specPoints(r, s, 25);
    // also points of the region on boundaries of the subdivision
    for (int i = 0; i < 10; ++i) {
        V3 q = pts.empty() ? V3(center) : r.pick(pts);
        LD a = lonOf(q.unit()), b = latOf(q.unit());
        if (r.chance(.5)) b = r.chance(.5) ? roundl((b + PIL / 2) / PIL * n) * PIL / n - PIL / 2 : roundl((b + PIL / 2) / PIL * n * m) * PIL / (static_cast<LD>(n) * m) - PIL / 2;
        else { int st = std::max(0, std::min(n - 1, static_cast<int>((b + PIL / 2) / PIL * n))); int qn = g.nc[static_cast<size_t>(st)]; if (qn) a = roundl(a / (2 * PIL) * qn) * 2 * PIL / qn; }
        pts.push_back(lonLat(a, b));
    }
    std::uint64_t inside = 0;
    for (V3 v : pts) {
        UnitVector3d p = toUnit(v);
        V3 w(p);
        w = w.unit();
        if (s.kleene(w) <= 0) continue;
        ++inside;
        LD a = lonOf(w), b = latOf(w);
        for (auto [st, ch] : g.chunksAt(a, b)) {
            c.eval();
            int id = g.id(st, ch);
            if (!set.count(id)) { c.fail("query-misses-chunk", msg() + " does not give " + std::to_string(id) + " which contains " + describe(p)); return; }
            for (auto [ss, sc] : g.subChunksAt(st, ch, a, b)) {
                auto it = subSet.find(id);
                if (it == subSet.end() || !it->second.count(g.subId(ss, sc))) { c.fail("query-misses-sub-chunk", msg() + " does not give " + std::to_string(g.subId(ss, sc)) + " of chunk " + std::to_string(id) + " which contains " + describe(p)); return; }
            }
        }
    }
    c.count("region points", inside);
    c.count("chunks reported", chunks.size());
    for (auto const & sc : subs) c.count("sub-chunks reported", sc.subChunkIds.size());
    if (reg.getBoundingBox().isEmpty()) c.check(chunks.empty() && subs.empty(), "chunks-of-nothing", msg);
    c.sample(msg);
}

// Boxes whose edges are, up to rounding, boundaries of the subdivision: what is
// on both sides of such an edge must be reported. The box is the exact
// coordinate rectangle; its corners and edge points are points of it, and a
// boundary of the subdivision is only known up to the rounding of a product.
SECTION(edge_boxes, 20000) {
    Rng & r = c.rng;
    auto [n, m] = config(r, r.chance(.2) ? 400 : 60);
    Chunker k(n, m);
    Grid g(k);
    int const N = n * m;
    auto boundaryLat = [&](int i) {
        double v;
        switch (r.range(0, 3)) {
            case 0: v = i * (PI / N) - 0.5 * PI; break;
            case 1: v = static_cast<double>(g.subLat(i)); break;
            case 2: v = PI * i / N - PI / 2; break;
            default: v = -90.0 + 180.0 * i / N; v = v * (PI / 180); break;
        }
        int steps = r.pick({0, 0, 0, 1, -1, 2, -2});
        for (; steps > 0; --steps) v = std::nextafter(v, 4.0);
        for (; steps < 0; ++steps) v = std::nextafter(v, -4.0);
        return std::max(-0.5 * PI, std::min(0.5 * PI, v));
    };
    auto boundaryLon = [&](int ss) {
        int st = ss / m, q = g.nc[static_cast<size_t>(st)] * (r.chance(.5) ? 1 : g.nsc[static_cast<size_t>(ss)]);
        if (q <= 0) return 0.0;
        double v = r.chance(.5) ? r.range(0, q) * (2 * PI / q) : 2 * PI * r.range(0, q) / q;
        int steps = r.pick({0, 0, 0, 1, -1});
        if (steps > 0) v = std::nextafter(v, 9.0);
        if (steps < 0) v = std::nextafter(v, -9.0);
        return v < 0 ? 0.0 : v >= 2 * PI ? 0.0 : v;
    };
    int i0 = r.range(0, N);
    if (r.chance(.5)) i0 = r.range(0, n) * m;                     // a boundary between stripes
    int i1 = r.chance(.4) ? i0 : std::min(N, i0 + r.range(0, 2));
    double la = r.chance(.75) ? boundaryLat(i0) : boundaryLat(i0) + r.uni(-.4, .4) * PI / N;
    double lb = r.chance(.5) ? boundaryLat(i1) : la + r.uni() * 1.3 * PI / N;
    if (r.chance(.15)) lb = la;
    la = std::max(-0.5 * PI, std::min(0.5 * PI, la));
    lb = std::max(-0.5 * PI, std::min(0.5 * PI, lb));
    if (la > lb) std::swap(la, lb);
    int sub = std::min(N - 1, std::max(0, i0 - (r.chance(.5) ? 1 : 0)));
    double width = 2 * PI / std::max(1, g.nc[static_cast<size_t>(sub / m)] * std::max(1, g.nsc[static_cast<size_t>(sub)]));
    double oa = boundaryLon(sub), ob;
    switch (r.range(0, 3)) {
        case 0: ob = oa; break;
        case 1: ob = oa + r.uni() * width * 1.5; break;
        case 2: ob = boundaryLon(sub); if (std::fabs(ob - oa) > 5 * width) ob = oa + width; break;
        default: ob = oa; oa = ob - r.uni() * width * 1.5; break;
    }
    if (oa < 0) oa += 2 * PI;
    if (ob >= 2 * PI) ob -= 2 * PI;
    NormalizedAngle A(oa), B(ob);
    Box box(NormalizedAngleInterval(A, B), AngleInterval(Angle(la), Angle(lb)));
    if (static_cast<double>(N) * N * 1.3 * box.dilatedBy(Angle(1e-9)).getArea() / (4 * PI) > 20000) { c.count("boxes too large"); return; }
    auto msg = [&, n = n, m = m] { std::ostringstream o; o.precision(17); o << "Chunker(" << n << ", " << m << ") and Box(lon " << A.asRadians() << " " << B.asRadians() << ", lat " << la << " " << lb << ")"; return o.str(); };
    c.eval(mix(static_cast<std::uint64_t>(n) << 20 | static_cast<std::uint64_t>(m)) ^ hashRegion(box));
    auto chunks = k.getChunksIntersecting(box);
    auto subs = k.getSubChunksIntersecting(box);
    std::set<int> set(chunks.begin(), chunks.end());
    std::map<int, std::set<int>> subSet;
    for (auto const & sc : subs) subSet[sc.chunkId].insert(sc.subChunkIds.begin(), sc.subChunkIds.end());
    double mid = A.asRadians() <= B.asRadians() ? .5 * (A.asRadians() + B.asRadians()) : 0.0;
    for (double lon : {A.asRadians(), B.asRadians(), mid})
        for (double lat : {la, lb, .5 * (la + lb)}) {
            if (!box.contains(LonLat(NormalizedAngle(lon), Angle(lat)))) { c.fail("box-without-its-point", msg()); return; }
            for (auto [st, ch] : g.chunksAt(lon, lat, 2e-15L)) {
                c.eval();
                int id = g.id(st, ch);
                auto where = [&] { std::ostringstream o; o.precision(17); o << " at lon " << lon << " lat " << lat; return o.str(); };
                if (!set.count(id)) { c.fail("edge-query-misses-chunk", msg() + " does not give " + std::to_string(id) + where()); return; }
                for (auto [ss, sc] : g.subChunksAt(st, ch, lon, lat, 2e-15L)) {
                    auto it = subSet.find(id);
                    if (it == subSet.end() || !it->second.count(g.subId(ss, sc))) { c.fail("edge-query-misses-sub-chunk", msg() + " does not give " + std::to_string(g.subId(ss, sc)) + " of chunk " + std::to_string(id) + where()); return; }
                    c.count("edge witnesses");
                }
            }
        }
    c.sample(msg);
}
