// C13: curve maps against bit-by-bit definitions and the defining properties of the Hilbert curve.
#include "vh.h"
#include "lsst/sphgeom/curve.h"
namespace sg = lsst::sphgeom;
using namespace vh;
namespace {
std::uint64_t refMorton(std::uint32_t x, std::uint32_t y) {
    std::uint64_t z = 0;
    for (int i = 0; i < 32; ++i) z |= (static_cast<std::uint64_t>((x >> i) & 1) << (2 * i)) | (static_cast<std::uint64_t>((y >> i) & 1) << (2 * i + 1));
    return z;
}
std::uint32_t coord(Rng & r) {
    switch (r.range(0, 4)) {
        case 0: return static_cast<std::uint32_t>(r.u64());
        case 1: return 1u << r.range(0, 31);
        case 2: return r.pick({0u, 1u, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x55555555u, 0xaaaaaaaau, 0xffffu, 0x10000u});
        case 3: return static_cast<std::uint32_t>((1ull << r.range(0, 32)) - 1);
        default: return static_cast<std::uint32_t>(r.u64()) >> r.range(0, 31);
    }
}
std::uint64_t mask(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
std::string hex(std::uint64_t x) { char b[32]; std::snprintf(b, sizeof b, "%#" PRIx64, x); return b; }
}  // namespace

SECTION(morton, 400000) {
    std::uint32_t x = coord(c.rng), y = coord(c.rng);
    std::uint64_t z = sg::mortonIndex(x, y), e = refMorton(x, y);
    c.eval(hashBytes(&e, 8, 1));
    c.check(z == e, "morton-index", [&] { return "mortonIndex(" + hex(x) + ", " + hex(y) + ") = " + hex(z) + ", not " + hex(e); });
    auto t = sg::mortonIndexInverse(e);
    c.check(std::get<0>(t) == x && std::get<1>(t) == y, "morton-inverse", [&] { return "mortonIndexInverse(" + hex(e) + ") = " + hex(std::get<0>(t)) + ", " + hex(std::get<1>(t)); });
#if !defined(NO_SIMD) && defined(__x86_64__)
    __m128i xy = _mm_set_epi64x(y, x);
    c.check(sg::mortonIndex(xy) == e, "morton-index-simd", [&] { return "mortonIndex(__m128i) of " + hex(x) + ", " + hex(y); });
    __m128i i = sg::mortonIndexInverseSimd(e);
    std::uint64_t lanes[2];
    _mm_storeu_si128(reinterpret_cast<__m128i *>(lanes), i);
    c.check(static_cast<std::uint32_t>(lanes[0]) == x && static_cast<std::uint32_t>(lanes[1]) == y, "morton-inverse-simd", [&] { return "mortonIndexInverseSimd(" + hex(e) + ")"; });
#endif
    c.sample([&] { return "mortonIndex(" + hex(x) + ", " + hex(y) + ") = " + hex(z); });
}

SECTION(log2, 200000) {
    std::uint64_t x = c.index < 192 ? (1ull << (c.index / 3)) + (c.index % 3) - 1 : c.rng.u64() >> c.rng.range(0, 63);
    if (x == 0) x = 1;
    int e = 63 - __builtin_clzll(x);
    c.eval(hashBytes(&x, 8, 2));
    int g = sg::log2(x);
    c.check(g == e, "log2-64", [&] { return "log2(" + hex(x) + ") = " + std::to_string(g); });
    std::uint32_t w = static_cast<std::uint32_t>(x >> (e > 31 ? e - 31 : 0));
    int e2 = 31 - __builtin_clz(w), g2 = sg::log2(w);
    c.check(g2 == e2, "log2-32", [&] { return "log2(uint32 " + hex(w) + ") = " + std::to_string(g2); });
    c.sample([&] { return "log2(" + hex(x) + ") = " + std::to_string(g); });
}

SECTION(hilbert_all, 17) {
    // Complete enumeration of small orders, as blocks of one order (orders 0..8, twice with shifted start).
    int m = static_cast<int>(c.index) % 9;
    std::uint64_t n = 1ull << (2 * m);
    std::vector<bool> seen(n, false);
    for (std::uint64_t h = 0; h < n; ++h) {
        std::uint64_t z = sg::hilbertToMorton(h, m);
        c.eval(mix(h) ^ m);
        if (z >= n || seen[z]) { c.fail("hilbert-bijection", "order " + std::to_string(m) + ": hilbertToMorton(" + hex(h) + ") = " + hex(z) + (z >= n ? " is out of range" : " is repeated")); return; }
        seen[z] = true;
        c.check(sg::mortonToHilbert(z, m) == h, "hilbert-inverse", [&] { return "order " + std::to_string(m) + ": mortonToHilbert(hilbertToMorton(" + hex(h) + "))"; });
    }
    c.count("orders_enumerated");
}

SECTION(hilbert, 400000) {
    Rng & r = c.rng;
    int m = static_cast<int>(c.index % 33);
    std::uint64_t h = r.u64() & mask(2 * m);
    if (r.chance(.3)) h = (1ull << r.range(0, 63)) & mask(2 * m);
    if (r.chance(.1)) h = mask(2 * m) - r.below(3);
    h &= mask(2 * m);
    auto what = [&] { return "order " + std::to_string(m) + " index " + hex(h); };
    c.eval(mix(h) ^ mix(m + 100));
    std::uint64_t z = sg::hilbertToMorton(h, m);
    c.check(z <= mask(2 * m), "hilbert-range", [&] { return what() + ": morton index out of range"; });
    c.check(sg::mortonToHilbert(z, m) == h, "hilbert-inverse", [&] { return what() + ": mortonToHilbert does not invert hilbertToMorton"; });
    auto xy = sg::hilbertIndexInverse(h, m);
    std::uint32_t x = std::get<0>(xy), y = std::get<1>(xy);
    c.check(refMorton(x, y) == z, "hilbert-morton", [&] { return what() + ": hilbertIndexInverse and hilbertToMorton disagree"; });
    c.check(sg::hilbertIndex(x, y, m) == h, "hilbert-index", [&] { return what() + ": hilbertIndex(" + hex(x) + ", " + hex(y) + ") does not give the index"; });
#if !defined(NO_SIMD) && defined(__x86_64__)
    c.check(sg::hilbertIndex(_mm_set_epi64x(y, x), m) == h, "hilbert-index-simd", what);
    std::uint64_t lanes[2];
    _mm_storeu_si128(reinterpret_cast<__m128i *>(lanes), sg::hilbertIndexInverseSimd(h, m));
    c.check(static_cast<std::uint32_t>(lanes[0]) == x && static_cast<std::uint32_t>(lanes[1]) == y, "hilbert-inverse-simd", what);
#endif
    if (h != mask(2 * m)) {
        auto n = sg::hilbertIndexInverse(h + 1, m);
        std::int64_t dx = static_cast<std::int64_t>(std::get<0>(n)) - x, dy = static_cast<std::int64_t>(std::get<1>(n)) - y;
        c.check(std::llabs(dx) + std::llabs(dy) == 1, "hilbert-adjacent", [&] { return what() + ": its successor is not in an adjacent cell"; });
        c.count("adjacent_pairs");
    }
    if (m > 0) {
        auto p = sg::hilbertIndexInverse(h >> 2, m - 1);
        c.check(std::get<0>(p) == x >> 1 && std::get<1>(p) == y >> 1, "hilbert-coarsening", [&] { return what() + ": the coarser curve visits another cell"; });
    }
    // forward direction on independently chosen coordinates
    std::uint32_t u = coord(r) & static_cast<std::uint32_t>(mask(m)), v = coord(r) & static_cast<std::uint32_t>(mask(m));
    std::uint64_t k = sg::hilbertIndex(u, v, m);
    auto uv = sg::hilbertIndexInverse(k, m);
    c.check(k <= mask(2 * m) && std::get<0>(uv) == u && std::get<1>(uv) == v, "hilbert-forward", [&] { return "order " + std::to_string(m) + ": hilbertIndex(" + hex(u) + ", " + hex(v) + ") = " + hex(k) + " is not inverted"; });
    c.check(sg::mortonToHilbert(refMorton(u, v), m) == k, "hilbert-from-morton", [&] { return "order " + std::to_string(m) + ": mortonToHilbert and hilbertIndex disagree at " + hex(u) + ", " + hex(v); });
    c.sample([&] { return what() + " at " + hex(x) + ", " + hex(y); });
}
