// Valid and damaged region encodings.
#pragma once
#include "gen.h"
namespace vh {
typedef std::vector<std::uint8_t> Bytes;

inline void putU64(Bytes & b, std::uint64_t v) { for (int i = 0; i < 8; ++i) b.push_back(static_cast<std::uint8_t>(v >> (8 * i))); }
inline void putF64(Bytes & b, double d) { putU64(b, bits(d)); }
inline std::uint64_t getU64(Bytes const & b, size_t at) { std::uint64_t v = 0; for (int i = 0; i < 8; ++i) v |= static_cast<std::uint64_t>(b.at(at + i)) << (8 * i); return v; }
inline double getF64(Bytes const & b, size_t at) { return fromBits(getU64(b, at)); }

inline RegionPtr codecRegion(Rng & r) {
    if (r.chance(.05)) {
        // a chain of compounds
        RegionPtr p = anyRegion(r, r.range(0, 3));
        int n = r.range(3, 12);
        for (int i = 0; i < n; ++i) {
            RegionPtr q = anyRegion(r, r.range(0, 3));
            bool left = r.chance(.5), u = r.chance(.5);
            Region const & x = left ? *p : *q; Region const & y = left ? *q : *p;
            if (u) p = std::make_unique<UnionRegion>(x, y); else p = std::make_unique<IntersectionRegion>(x, y);
        }
        return p;
    }
    return anyRegion(r);
}

inline std::string hexOf(Bytes const & b) {
    std::string s; char t[3];
    for (size_t i = 0; i < b.size() && i < 600; ++i) { std::snprintf(t, 3, "%02x", b[i]); s += t; }
    return s + " (" + std::to_string(b.size()) + " bytes)";
}

inline Bytes mutate(Rng & r, Bytes b) {
    int n = r.range(1, 4);
    for (int k = 0; k < n; ++k) {
        size_t at = b.empty() ? 0 : r.below(b.size());
        switch (r.range(0, 11)) {
            case 0: if (!b.empty()) b[at] ^= static_cast<std::uint8_t>(1u << r.below(8)); break;
            case 1: if (!b.empty()) b[at] = static_cast<std::uint8_t>(r.u64()); break;
            case 2: case 3: {  // a whole field
                if (b.size() < 9) break;
                size_t f = 1 + 8 * r.below((b.size() - 1) / 8);
                Bytes t; putF64(t, hostileDouble(r));
                std::copy(t.begin(), t.end(), b.begin() + static_cast<std::ptrdiff_t>(f));
                break;
            }
            case 4: {  // a length
                if (b.size() < 9) break;
                size_t f = r.chance(.6) ? 1 : r.below(b.size() - 8);
                Bytes t;
                std::uint64_t o = getU64(b, f);
                putU64(t, r.pick({o + 1, o - 1, o + 24, o - 24, static_cast<std::uint64_t>(b.size()), static_cast<std::uint64_t>(b.size() - 9), static_cast<std::uint64_t>(0), ~static_cast<std::uint64_t>(0),
                                  ~static_cast<std::uint64_t>(0) - 8, static_cast<std::uint64_t>(1) << 63, static_cast<std::uint64_t>(1) << 32, r.u64(), r.below(256)}));
                std::copy(t.begin(), t.end(), b.begin() + static_cast<std::ptrdiff_t>(f));
                break;
            }
            case 5: b.resize(r.below(b.size() + 1)); break;
            case 6: { int m = r.range(1, 40); for (int i = 0; i < m; ++i) b.push_back(static_cast<std::uint8_t>(r.u64())); break; }
            case 7: if (!b.empty()) b[0] = r.pick<std::uint8_t>({'b', 'c', 'e', 'p', 'u', 'i', 0, 255}); break;
            case 8: if (!b.empty()) b.erase(b.begin() + static_cast<std::ptrdiff_t>(at), b.begin() + static_cast<std::ptrdiff_t>(std::min(b.size(), at + r.below(30)))); break;
            case 9: { Bytes t = codecRegion(r)->encode(); b.insert(b.begin() + static_cast<std::ptrdiff_t>(at), t.begin(), t.end()); break; }
            case 10: {  // wrapped into a compound, with a possibly wrong length
                Bytes t; t.push_back(r.chance(.5) ? 'u' : 'i');
                putU64(t, b.size() + (r.chance(.3) ? r.below(3) - 1 : 0)); t.insert(t.end(), b.begin(), b.end());
                Bytes o = r.chance(.8) ? codecRegion(r)->encode() : b;
                putU64(t, o.size() + (r.chance(.3) ? r.below(3) - 1 : 0)); t.insert(t.end(), o.begin(), o.end());
                b = t;
                break;
            }
            default: if (b.size() > 25) { size_t f = 1 + 24 * r.below((b.size() - 1) / 24); for (int i = 0; i < 24; ++i) b.push_back(f + i < b.size() ? b[f + i] : 0); }
        }
    }
    return b;
}
}  // namespace vh
