// C12: levels and labels of pixel indexes.
#include "pix.h"
using namespace vh;

namespace {
std::string hex(std::uint64_t u) { char b[24]; std::snprintf(b, sizeof b, "0x%" PRIx64, u); return b; }

// The label an index must have, from its base-4 digits.
std::string label(int kind, int level, std::uint64_t i) {
    static char const * htm[] = {"S0", "S1", "S2", "S3", "N0", "N1", "N2", "N3"};
    static char const * q3c[] = {"+Z", "+X", "+Y", "-X", "-Y", "-Z"};
    static char const * mq3c[] = {"-Z", "+X", "+Y", "+Z", "-X", "-Y"};
    std::string s;
    for (int l = 0; l < level; ++l) { s.insert(s.begin(), static_cast<char>('0' + (i & 3))); i >>= 2; }
    return std::string(kind == 0 ? htm[i - 8] : (kind == 1 ? q3c[i] : mq3c[i - 10])) + s;
}

// The level of the pixelization that has index i, or -1.
int levelOf(int kind, std::uint64_t i) {
    for (int l = 0; l <= 30; ++l) {
        unsigned __int128 a = static_cast<unsigned __int128>(kind == 0 ? 8 : 10) << (2 * l), b = static_cast<unsigned __int128>(16) << (2 * l);
        if (i >= a && i < b) return l;
    }
    return -1;
}

template <typename F> bool rejects(F f) { try { f(); } catch (std::invalid_argument const &) { return true; } return false; }

void judgeLevel(Ctx & c, std::uint64_t i) {
    c.eval(i + 1);
    int h = HtmPixelization::level(i), m = Mq3cPixelization::level(i), eh = levelOf(0, i), em = levelOf(2, i);
    // Levels above the largest one supported by HtmPixelization may be reported as such or as invalid.
    c.check(h == eh || (eh > 24 && h == -1), "htm-level", [&] { return "HtmPixelization::level(" + hex(i) + ") = " + std::to_string(h); });
    c.check(m == em, "mq3c-level", [&] { return "Mq3cPixelization::level(" + hex(i) + ") = " + std::to_string(m); });
    bool hv = eh >= 0 && eh <= 24, mv = em >= 0;
    c.count(hv ? "HTM indexes" : "not HTM indexes");
    c.count(mv ? "MQ3C indexes" : "not MQ3C indexes");
    if (hv) {
        HtmPixelization p(eh);
        c.check(p.universe().contains(i), "htm-universe", [&] { return hex(i); });
        std::string s = HtmPixelization::asString(i);
        c.check(s == label(0, eh, i) && s == p.toString(i), "htm-label", [&] { return hex(i) + " is " + s; });
        if (eh > 0) c.check(s.substr(0, s.size() - 1) == HtmPixelization::asString(i >> 2), "htm-parent-label", [&] { return hex(i) + " is " + s; });
    } else {
        c.check(rejects([&] { (void)HtmPixelization::asString(i); }), "htm-label-accepts", [&] { return hex(i); });
        c.check(rejects([&] { (void)HtmPixelization::triangle(i); }), "htm-triangle-accepts", [&] { return hex(i); });
    }
    if (mv) {
        Mq3cPixelization p(em);
        c.check(p.universe().contains(i), "mq3c-universe", [&] { return hex(i); });
        std::string s = Mq3cPixelization::asString(i);
        c.check(s == label(2, em, i) && s == p.toString(i), "mq3c-label", [&] { return hex(i) + " is " + s; });
        if (em > 0) c.check(s.substr(0, s.size() - 1) == Mq3cPixelization::asString(i >> 2), "mq3c-parent-label", [&] { return hex(i) + " is " + s; });
    } else {
        c.check(rejects([&] { (void)Mq3cPixelization::asString(i); }), "mq3c-label-accepts", [&] { return hex(i); });
        c.check(rejects([&] { (void)Mq3cPixelization::quad(i); }) && rejects([&] { (void)Mq3cPixelization::neighborhood(i); }), "mq3c-quad-accepts", [&] { return hex(i); });
    }
}
}  // namespace

SECTION(levels, 200000) {
    Rng & r = c.rng;
    std::uint64_t i;
    switch (r.range(0, 4)) {
        case 0: i = r.u64() >> r.below(64); break;
        case 1: i = (r.pick<std::uint64_t>({8, 9, 10, 16, 15, 7, 11, 12}) << r.below(61)) + r.below(5) - 2; break;
        case 2: i = (1ull << r.below(64)) + r.below(5) - 2; break;
        case 3: i = r.below(5000); break;
        default: { Pix p = anyPix(r); i = p.randomIndex(r); }
    }
    judgeLevel(c, i);
}

SECTION(small_levels_all, 64) { for (std::uint64_t i = c.index * 1100; i < (c.index + 1) * 1100; ++i) judgeLevel(c, i); }

SECTION(boundaries_all, 64) {
    int b = static_cast<int>(c.index);
    for (std::uint64_t m : {1ull, 2ull, 3ull, 5ull, 7ull, 8ull, 9ull, 10ull, 11ull, 12ull, 13ull, 14ull, 15ull}) for (int d = -2; d <= 2; ++d) judgeLevel(c, (m << b) + static_cast<std::uint64_t>(d));
}

SECTION(q3c_labels, 60000) {
    Rng & r = c.rng;
    Pix p(1, r.range(0, 30));
    std::uint64_t i = p.randomIndex(r);
    c.eval(mix(i) ^ static_cast<std::uint64_t>(p.level));
    std::string s = p.p->toString(i);
    c.check(s == label(1, p.level, i), "q3c-label", [&] { return p.desc() + " " + hex(i) + " is " + s; });
    std::uint64_t j = p.last() + 1 + (r.u64() >> r.below(64));
    if (j > p.last()) c.check(rejects([&] { (void)p.p->toString(j); }) && rejects([&] { (void)p.p->pixel(j); }) && rejects([&] { (void)p.neighborhood(j); }), "q3c-accepts", [&] { return p.desc() + " " + hex(j); });
}

// A label tells where a pixel is: the root's name gives the face or octant its points lie in.
SECTION(label_geometry, 60000) {
    Rng & r = c.rng;
    Pix p = anyPix(r);
    std::uint64_t i = p.randomIndex(r);
    auto v = p.vertices(i);
    V3 m;
    for (V3 x : v) m = m + x;
    std::string s = p.p->toString(i);
    c.eval(mix(i) ^ static_cast<std::uint64_t>(p.kind * 64 + p.level));
    bool ok;
    if (p.kind == 0) ok = (s[0] == 'N') == (m.z > 0);
    else {
        LD w = s[1] == 'X' ? m.x : (s[1] == 'Y' ? m.y : m.z);
        if (s[0] == '-') w = -w;
        ok = w > 0 && w >= fabsl(m.x) && w >= fabsl(m.y) && w >= fabsl(m.z);
    }
    c.check(ok, "label-geometry", [&] { return p.desc() + " " + hex(i) + " is " + s + " but is centred at " + describe(m); });
    // digits are those of the levels above
    UnitVector3d u = toUnit(m);
    for (int l = 0; l < p.level; l += r.range(1, 5)) {
        Pix q(p.kind, l);
        std::uint64_t j = q.p->index(u);
        c.check(q.p->toString(j) == s.substr(0, static_cast<size_t>(l + 2)), "label-prefix", [&] { return p.desc() + " " + s + " lies in " + q.p->toString(j); });
    }
}

// Labels of a level are distinct.
SECTION(distinct_all, 18) {
    int kind = static_cast<int>(c.index % 3), level = static_cast<int>(c.index / 3);
    Pix p(kind, level);
    std::map<std::string, std::uint64_t> seen;
    for (std::uint64_t i = p.first(); i <= p.last(); ++i) {
        std::string s = p.p->toString(i);
        c.eval(mix(i) + static_cast<std::uint64_t>(kind));
        c.check(seen.emplace(s, i).second, "duplicate-label", [&] { return p.desc() + " " + s; });
    }
}
