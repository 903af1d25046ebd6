// C30: each allocation of an operation fails in turn; the failure must surface, nothing may leak, and the
// operands must answer as before. Also counts that operations give back all memory they do not return.
#include "fault.h"
#include "spec.h"
#include "pix.h"
#include "codecgen.h"
#include "vh.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/CompoundRegion.h"
using namespace vh;

namespace {

std::uint64_t digest(Bytes const & b) { return hashBytes(b.data(), b.size(), 1); }
std::uint64_t digest(Region const & r) { return digest(r.encode()); }
std::uint64_t digest(RangeSet const & s) {
    std::uint64_t h = 2;
    for (auto const & t : s) h = mix(h ^ mix(std::get<0>(t)) ^ std::get<1>(t));
    return s.isValid() ? h : 0;
}
template <typename T> std::uint64_t digest(std::vector<T> const & v) { std::uint64_t h = v.size(); for (auto x : v) h = mix(h ^ static_cast<std::uint64_t>(x)); return h; }
std::uint64_t digest(std::string const & s) { return hashBytes(s.data(), s.size(), 3); }
std::uint64_t digest(std::vector<SubChunks> const & v) { std::uint64_t h = v.size(); for (auto const & x : v) h = mix(h ^ static_cast<std::uint64_t>(x.chunkId) ^ digest(x.subChunkIds)); return h; }
std::uint64_t digest(Box const & b) { return digest(static_cast<Region const &>(b)); }

// `op` performs the operation on operands prepared beforehand and hashes what it returns; `state` hashes the operands.
// The hashing inside `op` is not itself subject to failures.
struct Pause { long k; long made; Pause() : k(fault::countdownRef()), made(fault::madeRef()) { fault::onRef() = false; } ~Pause() { fault::onRef() = true; } };

template <typename Op, typename State>
void enumerate(vh::Ctx & c, std::string const & name, std::string const & desc, Op const & op, State const & state) {
    std::uint64_t const before = state();
    std::uint64_t want = 0;
    bool rejects = false;
    long live = fault::live();
    fault::arm(-1);
    try { want = op(); } catch (std::exception const &) { rejects = true; }
    long made = fault::disarm();
    long after = fault::live();
    c.eval(hashBytes(desc.data(), desc.size(), hashBytes(name.data(), name.size())));
    c.count("operations");
    c.check(after == live, ("leak:" + name).c_str(), [&] { return name + " of " + desc + ": " + toStr(after - live) + " blocks not released although nothing failed"; });
    if (made == 0) { c.count("no_allocation"); return; }
    int done = 0;
    for (long k = 0; k < made && done < 60; ++done) {
        live = fault::live();
        bool threw = false, other = false;
        std::uint64_t got = 0;
        std::string msg;
        fault::arm(k);
        try { got = op(); } catch (std::bad_alloc const &) { threw = true; } catch (std::exception const & e) { fault::onRef() = false; other = true; msg = e.what(); }
        fault::disarm();
        msg = std::string();
        msg.shrink_to_fit();
        after = fault::live();
        c.eval();
        c.count("injected_failures");
        c.check(after == live, ("leak-on-failure:" + name).c_str(), [&] { return name + " of " + desc + ", failing allocation " + toStr(k) + " of " + toStr(made) + ": " + toStr(after - live) + " blocks leaked"; });
        if (threw) c.count("surfaced");
        else if (other) {
            c.count("surfaced_as_rejection");
            c.check(rejects, ("other-exception:" + name).c_str(), [&] { return name + " of " + desc + ", failing allocation " + toStr(k) + ": an exception other than bad_alloc"; });
        } else {
            // Coping without the memory is fine as long as the result is right.
            c.count("coped");
            c.check(!rejects && got == want, ("wrong-result:" + name).c_str(), [&] { return name + " of " + desc + ", failing allocation " + toStr(k) + " of " + toStr(made) + ": no exception, and a different result"; });
        }
        std::uint64_t now = state();
        c.check(now == before, ("changed:" + name).c_str(), [&] { return name + " of " + desc + ", failing allocation " + toStr(k) + ": an operand changed"; });
        k += made > 60 && done > 20 ? 1 + static_cast<long>(c.rng.below(static_cast<std::uint64_t>(made / 20))) : 1;
    }
    // Everything still works.
    std::uint64_t again = 0;
    bool rej = false;
    try { again = op(); } catch (std::exception const &) { rej = true; }
    c.check(rej == rejects && again == want, ("unusable:" + name).c_str(), [&] { return name + " of " + desc + ": the result is different after failures"; });
    c.sample([&] { return name + " of " + desc + ": " + toStr(made) + " allocations"; });
}

Spec smallSpec(Rng & r) {
    // Not so large that pixelizing takes long.
    int kind = r.range(0, NKINDS - 1);
    return makeSpec(r, kind, anyUnit(r), r.logUni(1e-4, 1));
}

}  // namespace

SECTION(codec, 2500) {
    RegionPtr r = codecRegion(c.rng);
    std::string d = kindName(0);
    d = describe(*r);
    Bytes b = r->encode();
    auto st = [&] { return digest(*r) ^ digest(b); };
    enumerate(c, "encode", d, [&] { Bytes x = r->encode(); Pause p; return digest(x); }, st);
    enumerate(c, "decode", d, [&] { auto x = Region::decode(b); Pause p; return digest(*x); }, st);
    enumerate(c, "clone", d, [&] { auto x = r->clone(); Pause p; return digest(*x); }, st);
    enumerate(c, "getRegions", d, [&] { auto x = Region::getRegions(*r); Pause p; std::uint64_t h = 0; for (auto const & y : x) h = mix(h ^ digest(*y)); return h; }, st);
    Bytes m = mutate(c.rng, b);
    enumerate(c, "decode-damaged", hexOf(m), [&] { auto x = Region::decode(m); Pause p; return digest(*x); }, [&] { return digest(m); });
    if (b[0] == UnionRegion::TYPE_CODE || b[0] == IntersectionRegion::TYPE_CODE)
        enumerate(c, "CompoundRegion::decode", d, [&] { auto x = CompoundRegion::decode(b); Pause p; return digest(*x); }, st);
}

SECTION(compounds, 2500) {
    RegionPtr a = codecRegion(c.rng), b = codecRegion(c.rng);
    std::string d = describe(*a) + " and " + describe(*b);
    auto st = [&] { return digest(*a) ^ mix(digest(*b)); };
    enumerate(c, "union", d, [&] { UnionRegion x(*a, *b); Pause p; return digest(x); }, st);
    enumerate(c, "intersection", d, [&] { IntersectionRegion x(*a, *b); Pause p; return digest(x); }, st);
    enumerate(c, "adopt", d, [&] { std::array<std::unique_ptr<Region>, 2> o{a->clone(), b->clone()}; UnionRegion x(std::move(o)); Pause p; return digest(x); }, st);
    UnionRegion u(*a, *b);
    enumerate(c, "copy", d, [&] { UnionRegion x(u); Pause p; return digest(x); }, [&] { return st() ^ digest(u); });
    enumerate(c, "relate", d, [&] { return std::uint64_t(a->relate(*b).to_ulong()); }, st);
    enumerate(c, "bounds", d, [&] { Box x = a->getBoundingBox(); Circle y = a->getBoundingCircle(); a->getBoundingBox3d(); Pause p; return digest(x) ^ digest(static_cast<Region const &>(y)); }, st);
}

SECTION(hulls, 2500) {
    std::vector<UnitVector3d> v;
    UnitVector3d ctr = anyUnit(c.rng);
    LD size = c.rng.logUni(1e-6, 3);
    int n = c.rng.range(1, 40);
    for (int i = 0; i < n; ++i) v.push_back(toUnit(offset(c.rng, V3(ctr), size * c.rng.uni())));
    if (c.rng.chance(.3)) v.push_back(v[0]);
    std::string d = toStr(v.size()) + " points within " + str(double(size)) + " of " + describe(ctr);
    auto st = [&] { return hashBytes(v.data(), v.size() * sizeof v[0]); };
    enumerate(c, "hull", d, [&] { ConvexPolygon x(v); Pause p; return digest(static_cast<Region const &>(x)); }, st);
    enumerate(c, "convexHull", d, [&] { ConvexPolygon x = ConvexPolygon::convexHull(v); Pause p; return digest(static_cast<Region const &>(x)); }, st);
    ConvexPolygon a = makePolygon(c.rng, ctr, 0.3), b = makePolygon(c.rng, anyUnit(c.rng), 0.5);
    auto sp = [&] { return digest(static_cast<Region const &>(a)) ^ digest(static_cast<Region const &>(b)); };
    enumerate(c, "copy-polygon", d, [&] { ConvexPolygon x(a); Pause p; return digest(static_cast<Region const &>(x)); }, sp);
    {
        // A failed assignment leaves the target as it was.
        std::uint64_t want = digest(static_cast<Region const &>(b)), old = digest(static_cast<Region const &>(a));
        for (long k = 0; k < 4; ++k) {
            ConvexPolygon x(a);
            bool threw = false;
            long live = fault::live();
            fault::arm(k);
            try { x = b; } catch (std::bad_alloc const &) { threw = true; }
            fault::disarm();
            c.eval();
            std::uint64_t got = digest(static_cast<Region const &>(x));
            c.check(got == (threw ? old : want), "assign-polygon", [&] { return "assigning " + describe(b) + " to " + describe(a) + " with allocation " + toStr(k) + " failing gives neither"; });
            if (threw) { c.count("injected_failures"); c.check(fault::live() == live, "leak-on-failure:assign-polygon", [&] { return describe(a); }); }
            else break;
        }
    }
    enumerate(c, "polygon-queries", describe(a), [&] { std::uint64_t h = a.relate(b).to_ulong(); UnitVector3d g = a.getCentroid(); h ^= bits(g.x()); h ^= std::uint64_t(a.contains(ctr)); return h; }, sp);
}

SECTION(pixels, 1200) {
    Pix p = anyPix(c.rng, 12);
    Spec s = smallSpec(c.rng);
    size_t cap = c.rng.pick({size_t(0), size_t(1), size_t(4), size_t(30), size_t(200)});
    // bounds the work
    LD angle = s.region->getBoundingCircle().getOpeningAngle().asRadians();
    int lmax = std::max(0, static_cast<int>(std::floor(std::log2(20.0 / std::max(1e-7, double(angle))))));
    if (s.kind >= UNION) lmax = std::min(lmax, 4);  // operands can be much larger than the result
    if (p.level > lmax) p = Pix(p.kind, std::min(lmax, Pix::maxLevel(p.kind)));
    std::string d = p.desc() + " with at most " + toStr(cap) + " ranges of " + s.desc;
    auto st = [&] { return digest(*s.region) ^ digest(p.p->universe()); };
    enumerate(c, "envelope", d, [&] { RangeSet x = p.p->envelope(*s.region, cap); Pause q; return digest(x); }, st);
    enumerate(c, "interior", d, [&] { RangeSet x = p.p->interior(*s.region, cap); Pause q; return digest(x); }, st);
    std::uint64_t i = p.randomIndex(c.rng);
    std::string e = p.desc() + " index " + toStr(i);
    enumerate(c, "universe", p.desc(), [&] { RangeSet x = p.p->universe(); Pause q; return digest(x); }, st);
    enumerate(c, "pixel", e, [&] { auto x = p.p->pixel(i); Pause q; return digest(*x); }, st);
    enumerate(c, "toString", e, [&] { auto x = p.p->toString(i); Pause q; return digest(x); }, st);
    if (p.kind) enumerate(c, "neighborhood", e, [&] { auto x = p.neighborhood(i); Pause q; return digest(x); }, st);
}

SECTION(chunks, 1200) {
    int n = c.rng.range(1, 14), m = c.rng.range(1, 4);
    std::string k = "Chunker(" + toStr(n) + ", " + toStr(m) + ")";
    Chunker ch(n, m);
    Spec s = smallSpec(c.rng);
    std::string d = k + " for " + s.desc;
    auto st = [&] { return digest(ch.getAllChunks()) ^ digest(*s.region); };
    enumerate(c, "Chunker", k, [&] { Chunker x(n, m); Pause q; return digest(x.getAllChunks()); }, st);
    enumerate(c, "copy-chunker", k, [&] { Chunker x(ch); Pause q; return digest(x.getAllChunks()); }, st);
    enumerate(c, "getAllChunks", k, [&] { auto x = ch.getAllChunks(); Pause q; return digest(x); }, st);
    std::int32_t id = c.rng.pick(ch.getAllChunks());
    enumerate(c, "getAllSubChunks", k + " chunk " + toStr(id), [&] { auto x = ch.getAllSubChunks(id); Pause q; return digest(x); }, st);
    enumerate(c, "getChunksIntersecting", d, [&] { auto x = ch.getChunksIntersecting(*s.region); Pause q; return digest(x); }, st);
    enumerate(c, "getSubChunksIntersecting", d, [&] { auto x = ch.getSubChunksIntersecting(*s.region); Pause q; return digest(x); }, st);
}
