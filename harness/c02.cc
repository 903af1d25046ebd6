// C02: decoding arbitrary bytes never misbehaves, and what it returns is usable.
#include "fault.h"
#include "codecgen.h"
using namespace vh;

namespace {
void use(Ctx & c, Region const & g, Bytes const & b) {
    UnitVector3d v = anyUnit(c.rng);
    (void)g.contains(v);
    (void)g.contains(v.x(), v.y(), v.z());
    Box bb; Box3d b3; Circle bc;
    try { bb = g.getBoundingBox(); } catch (std::exception const &) { c.count("bound threw"); }
    try { b3 = g.getBoundingBox3d(); } catch (std::exception const &) { c.count("bound threw"); }
    try { bc = g.getBoundingCircle(); } catch (std::exception const &) { c.count("bound threw"); }
    try {
        RegionPtr o = anyRegion(c.rng, c.rng.range(0, 3));
        (void)g.relate(*o); (void)o->relate(g);
        (void)g.relate(g);
    } catch (std::exception const &) { c.count("relate threw"); }
    RegionPtr k = g.clone();
    c.check(k && typeid(*k) == typeid(g), "clone-type", [&] { return hexOf(b); });
    Bytes e = g.encode();
    try {
        RegionPtr d = Region::decode(e);
        // the sign and payload of NaNs may change
        auto plain = [](Bytes x) {
            for (size_t i = 1; (x[0] == 'b' || x[0] == 'c' || x[0] == 'e') && i + 8 <= x.size(); i += 8)
                if (std::isnan(getF64(x, i))) { Bytes n; putF64(n, std::nan("")); std::copy(n.begin(), n.end(), x.begin() + static_cast<std::ptrdiff_t>(i)); }
            return x;
        };
        c.check(d && (d->encode() == e || plain(d->encode()) == plain(e) || e[0] == 'u' || e[0] == 'i'), "re-encode", [&] { return hexOf(b) + " re-encodes to " + hexOf(e); });
    } catch (std::exception const & x) { c.fail("re-decode", "the encoding of a decoded region is rejected (" + std::string(x.what()) + "): " + hexOf(b)); }
    for (auto const & p : Region::getRegions(g)) (void)p->contains(v);
}

// Calls a decoder on an exactly sized heap buffer, so that any read outside of it is reported. Returns whether it accepted.
template <typename F> bool attempt(Ctx & c, Bytes const & b, char const * name, F f, bool exercise) {
    for (char const * k : {"accepted", "rejected", "bound threw", "relate threw"}) c.count(k, 0);
    long before = fault::live();
    bool ok = false;
    {
        // An allocation of no bytes has an addressable byte; point to the end of a larger one instead.
        size_t const pad = b.empty() ? 8 : 0;
        std::unique_ptr<std::uint8_t[]> h(new std::uint8_t[b.size() + pad]);
        std::copy(b.begin(), b.end(), h.get());
        try {
            auto p = f(h.get() + pad, b.size());
            ok = true;
            if (!p) c.fail("null", std::string(name) + " returned null for " + hexOf(b));
            else if (exercise) {
                h.reset();  // nothing may refer to the buffer any more
                use(c, *p, b);
            }
        } catch (std::exception const &) {
        }
    }
    c.check(fault::live() == before, "leak", [&] { return std::string(name) + " leaked decoding " + hexOf(b); });
    c.count(ok ? "accepted" : "rejected");
    return ok;
}

void all(Ctx & c, Bytes const & b) {
    c.eval(hashBytes(b.data(), b.size()));
    bool g = attempt(c, b, "Region::decode", [](std::uint8_t const * p, size_t n) { return Region::decode(p, n); }, true);
    char t = b.empty() ? 0 : static_cast<char>(b[0]);
    auto one = [&](char const * name, bool mine, bool got) {
        c.check(mine ? got == g : !got, "decoders-disagree", [&] { return std::string(name) + (got ? " accepts " : " rejects ") + hexOf(b) + ", Region::decode " + (g ? "accepts it" : "rejects it"); });
    };
    one("Box::decode", t == 'b', attempt(c, b, "Box::decode", [](std::uint8_t const * p, size_t n) { return Box::decode(p, n); }, false));
    one("Circle::decode", t == 'c', attempt(c, b, "Circle::decode", [](std::uint8_t const * p, size_t n) { return Circle::decode(p, n); }, false));
    one("Ellipse::decode", t == 'e', attempt(c, b, "Ellipse::decode", [](std::uint8_t const * p, size_t n) { return Ellipse::decode(p, n); }, false));
    one("ConvexPolygon::decode", t == 'p', attempt(c, b, "ConvexPolygon::decode", [](std::uint8_t const * p, size_t n) { return ConvexPolygon::decode(p, n); }, false));
    one("CompoundRegion::decode", t == 'u' || t == 'i', attempt(c, b, "CompoundRegion::decode", [](std::uint8_t const * p, size_t n) { return CompoundRegion::decode(p, n); }, false));
    one("UnionRegion::decode", t == 'u', attempt(c, b, "UnionRegion::decode", [](std::uint8_t const * p, size_t n) { return UnionRegion::decode(p, n); }, false));
    one("IntersectionRegion::decode", t == 'i', attempt(c, b, "IntersectionRegion::decode", [](std::uint8_t const * p, size_t n) { return IntersectionRegion::decode(p, n); }, false));
}
}  // namespace

SECTION(mutated, 60000) {
    Bytes b = codecRegion(c.rng)->encode();
    b = mutate(c.rng, b);
    c.sample([&] { return hexOf(b).substr(0, 200); });
    all(c, b);
}

SECTION(random_bytes, 12000) {
    Rng & r = c.rng;
    size_t n = r.pick<size_t>({0, 1, 2, 8, 9, 10, 16, 17, 18, 25, 32, 33, 34, 40, 41, 42, 49, 72, 73, 74, 97, 112, 113, 114, 121});
    if (r.chance(.3)) n = r.below(300);
    Bytes b(n);
    for (auto & x : b) x = static_cast<std::uint8_t>(r.u64());
    if (n && r.chance(.9)) b[0] = r.pick<std::uint8_t>({'b', 'c', 'e', 'p', 'u', 'i'});
    if (n > 9 && (b[0] == 'u' || b[0] == 'i')) { Bytes t; putU64(t, r.chance(.5) ? r.below(n) : r.u64()); std::copy(t.begin(), t.end(), b.begin() + 1); }
    all(c, b);
}

// A type code followed by fields holding hostile doubles; every length is right.
SECTION(hostile_fields, 30000) {
    Rng & r = c.rng;
    Bytes b;
    int k = r.range(0, 3);
    b.push_back("bcep"[k]);
    int n = k == 0 ? 4 : (k == 1 ? 5 : (k == 2 ? 14 : 3 * r.range(0, 8)));
    UnitVector3d v;
    for (int i = 0; i < n; ++i) {
        if (k == 3 && i % 3 == 0) v = anyUnit(r);
        putF64(b, k == 3 && r.chance(.8) ? v(i % 3) : hostileDouble(r));
    }
    all(c, b);
}

// Every prefix of, and every short extension of, a valid encoding.
SECTION(truncate_extend, 2500) {
    Rng & r = c.rng;
    RegionPtr g = codecRegion(r);
    Bytes b = g->encode();
    bool poly = b[0] == 'p';
    auto judge = [&](Bytes const & t) {
        c.eval(hashBytes(t.data(), t.size()));
        bool ok = attempt(c, t, "Region::decode", [](std::uint8_t const * p, size_t n) { return Region::decode(p, n); }, false);
        bool allowed = poly && t.size() >= 73 && (t.size() - 1) % 24 == 0;
        c.check(!ok || allowed, "wrong-length-accepted", [&] { return "length " + std::to_string(t.size()) + " accepted, derived from " + hexOf(b); });
        attempt(c, t, "CompoundRegion::decode", [](std::uint8_t const * p, size_t n) { return CompoundRegion::decode(p, n); }, false);
    };
    size_t step = b.size() > 400 ? b.size() / 200 : 1;
    for (size_t n = 0; n < b.size(); n += n + 60 < b.size() ? step : 1) judge(Bytes(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(n)));
    for (int n = 1; n <= 50; ++n) {
        Bytes t = b;
        for (int i = 0; i < n; ++i) t.push_back(r.chance(.5) ? 0 : static_cast<std::uint8_t>(r.u64()));
        judge(t);
    }
    bool ok = attempt(c, b, "Region::decode", [](std::uint8_t const * p, size_t n) { return Region::decode(p, n); }, true);
    c.check(ok, "valid-rejected", [&] { return hexOf(b); });
}

// All strings of up to two bytes, and every type code with every length up to 130 of zeros, of 0xff and of 0x01.
SECTION(short_all, 260) {
    std::uint64_t i = c.index;
    if (i < 256) {
        for (int j = -1; j < 256; ++j) { Bytes b{static_cast<std::uint8_t>(i)}; if (j >= 0) b.push_back(static_cast<std::uint8_t>(j)); all(c, b); }
        for (size_t n = 3; n < 131; ++n) for (int f : {0, 255, 1}) { Bytes b(n, static_cast<std::uint8_t>(f)); b[0] = static_cast<std::uint8_t>(i); all(c, b); }
    } else {
        all(c, Bytes());
        bool threw = false;
        try { (void)Region::decode(nullptr, i == 256 ? 0 : 41); } catch (std::exception const &) { threw = true; }
        c.check(threw, "null-buffer", [] { return "a null buffer is accepted"; });
        std::uint8_t const * null = nullptr;
        size_t const sizes[] = {0, 33, 41, 113, 73, 1, 17, 1u << 20};
        for (size_t n : sizes) {
            auto none = [&](char const * name, auto f) {
                bool caught = false;
                try { (void)f(); } catch (std::exception const &) { caught = true; }
                c.check(caught, "null-buffer-type", [&] { return std::string(name) + " accepts a null buffer of " + std::to_string(n) + " bytes"; });
            };
            none("Region", [&] { return Region::decode(null, n); });
            none("Box", [&] { return Box::decode(null, n); });
            none("Circle", [&] { return Circle::decode(null, n); });
            none("Ellipse", [&] { return Ellipse::decode(null, n); });
            none("ConvexPolygon", [&] { return ConvexPolygon::decode(null, n); });
            none("CompoundRegion", [&] { return CompoundRegion::decode(null, n); });
            none("UnionRegion", [&] { return UnionRegion::decode(null, n); });
            none("IntersectionRegion", [&] { return IntersectionRegion::decode(null, n); });
        }
        for (size_t n = 0; n < 64; ++n) {
            // The vector overloads are the same as those for a pointer and length.
            Bytes b(n, static_cast<std::uint8_t>("bcepui"[n % 6]));
            auto same = [&](char const * name, auto f, auto g) {
                bool x = true, y = true;
                try { (void)f(); } catch (std::exception const &) { x = false; }
                try { (void)g(); } catch (std::exception const &) { y = false; }
                c.check(x == y, "vector-overload", [&] { return std::string(name) + " treats a vector differently from a buffer: " + hexOf(b); });
            };
            same("Region", [&] { return Region::decode(b); }, [&] { return Region::decode(b.data(), n); });
            same("Box", [&] { return Box::decode(b); }, [&] { return Box::decode(b.data(), n); });
            same("Circle", [&] { return Circle::decode(b); }, [&] { return Circle::decode(b.data(), n); });
            same("Ellipse", [&] { return Ellipse::decode(b); }, [&] { return Ellipse::decode(b.data(), n); });
            same("ConvexPolygon", [&] { return ConvexPolygon::decode(b); }, [&] { return ConvexPolygon::decode(b.data(), n); });
            same("CompoundRegion", [&] { return CompoundRegion::decode(b); }, [&] { return CompoundRegion::decode(b.data(), n); });
            same("UnionRegion", [&] { return UnionRegion::decode(b); }, [&] { return UnionRegion::decode(b.data(), n); });
            same("IntersectionRegion", [&] { return IntersectionRegion::decode(b); }, [&] { return IntersectionRegion::decode(b.data(), n); });
        }
        c.eval(i);
    }
}

// Compounds with operand lengths chosen to overflow pointer or size arithmetic.
SECTION(operand_lengths, 20000) {
    Rng & r = c.rng;
    Bytes a = anyRegion(r, r.range(0, 3))->encode(), d = anyRegion(r, r.range(0, 3))->encode();
    auto len = [&](size_t n) -> std::uint64_t {
        return r.pick<std::uint64_t>({n, n + 0ull, n + 1ull, n - 1ull, n + 8ull, n + 8 + static_cast<std::uint64_t>(d.size()), 0ull + n + 16 + d.size(), ~0ull, ~0ull - n, 0ull - n, 1ull << 63, (1ull << 32) + n, 0ull, 1ull, r.u64() >> r.below(64)});
    };
    Bytes b{static_cast<std::uint8_t>(r.chance(.5) ? 'u' : 'i')};
    std::uint64_t l1 = len(a.size()), l2 = len(d.size());
    putU64(b, l1); b.insert(b.end(), a.begin(), a.end());
    if (r.chance(.95)) { putU64(b, l2); if (r.chance(.9)) b.insert(b.end(), d.begin(), d.end()); }
    all(c, b);
}

// Nesting of a moderate depth must work; see known_findings.jsonl for what happens beyond.
SECTION(nested_all, 40) {
    int depth = static_cast<int>(c.index) * 25 + 1;
    Bytes inner = Circle(UnitVector3d::X(), Angle(1)).encode(), o = Box::full().encode();
    for (int i = 0; i < depth; ++i) {
        Bytes b{static_cast<std::uint8_t>(i % 3 ? 'u' : 'i')};
        Bytes const & x = i % 2 ? inner : o; Bytes const & y = i % 2 ? o : inner;
        putU64(b, x.size()); b.insert(b.end(), x.begin(), x.end());
        putU64(b, y.size()); b.insert(b.end(), y.begin(), y.end());
        inner = b;
    }
    c.eval(hashBytes(inner.data(), inner.size()));
    RegionPtr g = Region::decode(inner);
    c.check(g->encode() == inner, "nested", [&] { return "depth " + std::to_string(depth); });
    c.check(g->contains(UnitVector3d::X()), "nested-contains", [&] { return "depth " + std::to_string(depth); });
}

SECTION(deep_nesting_all, 1) {
    c.eval(1);
    Bytes b;
    size_t depth = 300000;
    for (size_t i = 0; i < depth; ++i) { b.push_back('u'); putU64(b, 9 * (depth - i - 1)); }
    try { (void)Region::decode(b); } catch (std::exception const &) {}
}
