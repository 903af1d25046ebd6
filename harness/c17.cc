// C17: arcs of the circle. An interval is judged as a set of numbers in [0, 2 pi]; relations are
// decided on an order-isomorphic model (the end points and the gaps between them).
#include "gen.h"
using namespace vh;

namespace {
constexpr double TWO_PI = 2.0 * PI;

struct Arc { int a, b; bool empty = false; };  // indexes into the sorted values

// The model: position 2 i is value i, position 2 i + 1 the open gap after it.
struct Model {
    std::vector<double> v;
    int n() const { return static_cast<int>(2 * v.size() - 1); }
    bool has(Arc const & x, int p) const {
        if (x.empty) return false;
        int a = 2 * x.a, b = 2 * x.b;
        return a <= b ? (a <= p && p <= b) : (p >= a || p <= b);
    }
    double size(Arc const & x) const { LD d = static_cast<LD>(v[static_cast<size_t>(x.b)]) - v[static_cast<size_t>(x.a)]; return static_cast<double>(x.a <= x.b ? d : d + 2 * PIL); }
    NormalizedAngleInterval make(Arc const & x) const {
        if (x.empty) return NormalizedAngleInterval::empty();
        return NormalizedAngleInterval(NormalizedAngle(v[static_cast<size_t>(x.a)]), NormalizedAngle(v[static_cast<size_t>(x.b)]));
    }
};

std::string show(NormalizedAngleInterval const & i) { return "[" + str(i.getA().asRadians()) + ", " + str(i.getB().asRadians()) + "]"; }

double angleValue(Rng & r) {
    switch (r.range(0, 6)) {
        case 0: return 0;
        case 1: return TWO_PI;
        case 2: return r.range(0, 8) * (PI / 4);
        case 3: return std::min(TWO_PI, r.logUni(1e-17, 6));
        case 4: return TWO_PI - r.logUni(1e-15, 6);
        case 5: { double d = r.range(0, 8) * (PI / 4); return std::max(0.0, std::min(TWO_PI, std::nextafter(d, r.chance(.5) ? 10 : -10))); }
        default: return r.uni(0, TWO_PI);
    }
}

int flags(Relationship q) { return (q & CONTAINS).any() + 2 * (q & DISJOINT).any() + 4 * (q & WITHIN).any(); }

void pairCase(Ctx & c, Model const & m, Arc t, Arc x, int pi) {
    NormalizedAngleInterval T = m.make(t), X = m.make(x);
    NormalizedAngle P(m.v[static_cast<size_t>(pi)]);
    auto msg = [&] { return show(T) + " and " + show(X) + ", " + str(P.asRadians()); };
    double key[5] = {T.getA().asRadians(), T.getB().asRadians(), X.getA().asRadians(), X.getB().asRadians(), P.asRadians()};
    c.eval(hashBytes(key, sizeof key));
    auto rel = [&](std::function<bool(int)> const & f, std::function<bool(int)> const & g) {
        bool con = true, dis = true, wit = true;
        for (int p = 0; p < m.n(); ++p) { bool a = f(p), b = g(p); if (a && b) dis = false; if (b && !a) con = false; if (a && !b) wit = false; }
        return con + 2 * dis + 4 * wit;
    };
    auto inT = [&](int p) { return m.has(t, p); };
    auto inX = [&](int p) { return m.has(x, p); };
    auto isP = [&](int p) { return p == 2 * pi; };
    c.check(T.isEmpty() == t.empty && T.wraps() == (!t.empty && t.a > t.b), "empty-wraps", msg);
    c.check(T.isFull() == (!t.empty && T.getA().asRadians() == 0 && T.getB().asRadians() == TWO_PI), "full", msg);
    bool pin = m.has(t, 2 * pi);
    c.check(T.contains(P) == pin && T.intersects(P) == pin && T.isDisjointFrom(P) == !pin, "point", msg);
    c.check(flags(T.relate(P)) == rel(inT, isP), "relate-point", msg);
    c.check(T.isWithin(P) == (t.empty || (t.a == pi && t.b == pi)), "within-point", msg);
    c.check((T == P) == (!t.empty && t.a == pi && t.b == pi) && (T != P) == !(T == P), "equals-point", msg);
    int e = rel(inT, inX);
    c.check(T.contains(X) == ((e & 1) != 0), "contains", msg);
    c.check(T.isDisjointFrom(X) == ((e & 2) != 0) && T.intersects(X) == ((e & 2) == 0), "disjoint", msg);
    c.check(T.isWithin(X) == ((e & 4) != 0), "within", msg);
    int f = flags(T.relate(X)), g = flags(X.relate(T));
    c.check(f == e, "relate", [&] { return msg() + " gave " + std::to_string(f) + ", not " + std::to_string(e); });
    c.check(g == ((e & 2) | ((e & 1) << 2) | ((e & 4) >> 2)), "relate-inverse", msg);
    c.check((T == X) == ((t.empty && x.empty) || (!t.empty && !x.empty && t.a == x.a && t.b == x.b)) && (T != X) == !(T == X), "equality", msg);
    c.count(e & 2 ? "disjoint" : e & 1 ? "contains" : e & 4 ? "within" : "overlapping");

    // the smallest of all arcs between the values containing a set
    int const k = static_cast<int>(m.v.size());
    auto smallest = [&](std::function<bool(int)> const & s) {
        double best = 100;
        for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) {
            Arc y{a, b};
            double z = m.size(y);
            if (z >= best) continue;
            bool ok = true;
            for (int p = 0; ok && p < m.n(); ++p) ok = !s(p) || m.has(y, p);
            if (ok) best = z;
        }
        return best;
    };
    auto locate = [&](NormalizedAngleInterval const & i, Arc & y) {
        if (i.isEmpty()) { y.empty = true; return true; }
        auto a = std::find(m.v.begin(), m.v.end(), i.getA().asRadians()), b = std::find(m.v.begin(), m.v.end(), i.getB().asRadians());
        y = Arc{static_cast<int>(a - m.v.begin()), static_cast<int>(b - m.v.begin())};
        return a != m.v.end() && b != m.v.end();
    };
    auto judge = [&](NormalizedAngleInterval const & R, std::function<bool(int)> const & s, std::string const & key) {
        Arc y;
        bool any = false;
        for (int p = 0; p < m.n(); ++p) any = any || s(p);
        if (!locate(R, y)) { c.fail(key + "-end-points", msg() + " gave " + show(R)); return y; }
        if (!any) { c.check(y.empty, (key + "-not-empty").c_str(), [&] { return msg() + " gave " + show(R); }); return y; }
        for (int p = 0; p < m.n(); ++p) if (s(p) && !m.has(y, p)) { c.fail(key + "-misses-points", msg() + " gave " + show(R)); return y; }
        double best = smallest(s);
        c.check(y.empty || m.size(y) <= best + 2e-15, (key + "-not-smallest").c_str(), [&] { return msg() + " gave " + show(R) + " but one of size " + str(best) + " exists"; });
        return y;
    };
    NormalizedAngleInterval Y = T.clippedTo(X), Z = T;
    c.check(&Z.clipTo(X) == &Z && Z == Y, "clipTo-differs", msg);
    Arc y = judge(Y, [&](int p) { return inT(p) && inX(p); }, "clip");
    if (!y.empty) {
        bool wt = true, wx = true;
        for (int p = 0; p < m.n(); ++p) if (m.has(y, p)) { wt = wt && inT(p); wx = wx && inX(p); }
        c.check(wt || wx, "clip-adds-points", [&] { return msg() + " gave " + show(Y); });
    }
    Y = T.clippedTo(P); Z = T;
    c.check(&Z.clipTo(P) == &Z && Z == Y && Y == (pin ? NormalizedAngleInterval(P) : NormalizedAngleInterval::empty()), "clip-point", msg);
    Y = T.expandedTo(X); Z = T;
    c.check(&Z.expandTo(X) == &Z && Z == Y, "expandTo-differs", msg);
    judge(Y, [&](int p) { return inT(p) || inX(p); }, "expand");
    Y = T.expandedTo(P); Z = T;
    c.check(&Z.expandTo(P) == &Z && Z == Y, "expandTo-point-differs", msg);
    judge(Y, [&](int p) { return inT(p) || isP(p); }, "expand-point");
    Z = T; Z.clipTo(Z); c.check(Z == T, "clip-self", msg);
    Z = T; Z.expandTo(Z); c.check(Z == T, "expand-self", msg);
    c.sample(msg);
}
}  // namespace

SECTION(pairs, 150000) {
    Rng & r = c.rng;
    Model m;
    int n = r.range(2, 7);
    for (int i = 0; i < n; ++i) m.v.push_back(r.chance(.2) && i ? std::max(0.0, std::min(TWO_PI, std::nextafter(m.v.back(), r.chance(.5) ? 10 : -10))) : angleValue(r));
    if (r.chance(.5)) m.v.push_back(0);
    if (r.chance(.5)) m.v.push_back(TWO_PI);
    std::sort(m.v.begin(), m.v.end());
    m.v.erase(std::unique(m.v.begin(), m.v.end()), m.v.end());
    for (double & d : m.v) d = d == 0 ? 0 : d;
    int k = static_cast<int>(m.v.size());
    for (int rep = 0; rep < 4; ++rep) {
        Arc t{static_cast<int>(r.below(k)), static_cast<int>(r.below(k))}, x{static_cast<int>(r.below(k)), static_cast<int>(r.below(k))};
        if (r.chance(.02)) t.empty = true;
        if (r.chance(.02)) x.empty = true;
        // an expansion over disjoint intervals may have to be full
        if (m.v.front() != 0 || m.v.back() != TWO_PI) { m.v.insert(m.v.begin(), 0.0); m.v.push_back(TWO_PI); m.v.erase(std::unique(m.v.begin(), m.v.end()), m.v.end()); k = static_cast<int>(m.v.size()); t.a = t.b = 0; x.a = k - 1; x.b = 0; }
        pairCase(c, m, t, x, static_cast<int>(r.below(k)));
    }
}

// All pairs of arcs with end points at the multiples of pi/4.
SECTION(grid_all, 6561) {
    Model m;
    for (int i = 0; i <= 8; ++i) m.v.push_back(i * (PI / 4));
    std::uint64_t i = c.index;
    Arc t{static_cast<int>(i % 9), static_cast<int>(i / 9 % 9)}, x{static_cast<int>(i / 81 % 9), static_cast<int>(i / 729 % 9)};
    for (int p = 0; p < 9; ++p) pairCase(c, m, t, x, p);
}

// Dilation and erosion.
SECTION(dilation, 300000) {
    Rng & r = c.rng;
    double a = angleValue(r), b = r.chance(.3) ? std::max(0.0, std::min(TWO_PI, a + (r.chance(.5) ? -1 : 1) * r.logUni(1e-16, 1))) : angleValue(r);
    NormalizedAngleInterval T{NormalizedAngle(a), NormalizedAngle(b)};
    if (r.chance(.02)) T = NormalizedAngleInterval::empty();
    if (r.chance(.02)) T = NormalizedAngleInterval::full();
    a = T.getA().asRadians(); b = T.getB().asRadians();
    LD size = a <= b ? static_cast<LD>(b) - a : static_cast<LD>(b) - a + 2 * PIL;
    double x;
    switch (r.range(0, 6)) {
        case 0: x = r.pick<double>({0.0, -0.0, PI, -PI, TWO_PI, -TWO_PI, INFINITY, -INFINITY, std::numeric_limits<double>::quiet_NaN(), PI / 2, -PI / 2, PI / 4, -PI / 4, 7.0, -7.0}); break;
        case 1: x = -static_cast<double>(size / 2) * (1 + (r.chance(.5) ? -1 : 1) * r.logUni(1e-16, 1)); break;
        case 2: x = static_cast<double>((2 * PIL - size) / 2) * (1 + (r.chance(.5) ? -1 : 1) * r.logUni(1e-16, 1)); break;
        case 3: x = (r.chance(.5) ? -1 : 1) * a; break;
        case 4: x = (r.chance(.5) ? -1 : 1) * r.logUni(1e-17, 4); break;
        default: x = r.uni(-3.5, 3.5);
    }
    double key[3] = {a, b, x};
    c.eval(hashBytes(key, sizeof key));
    NormalizedAngleInterval Y = T.dilatedBy(Angle(x)), Z = T;
    auto msg = [&] { return show(T) + " dilated by " + str(x) + " is " + show(Y); };
    c.check(&Z.dilateBy(Angle(x)) == &Z && Z == Y, "dilateBy-differs", msg);
    Z = T.erodedBy(Angle(-x));
    c.check(Z == Y, "erodedBy-differs", msg);
    Z = T;
    c.check(&Z.erodeBy(Angle(-x)) == &Z && Z == Y, "erodeBy-differs", msg);
    if (T.isEmpty() || T.isFull() || x != x || x == 0) { c.count("no effect"); c.check(Y == T, "no-effect", msg); return; }
    LD const tol = 4e-15L;
    LD s = size + 2 * static_cast<LD>(x);
    bool mayFull = x > 0 && s >= 2 * PIL - tol, mustFull = x > 0 && s > 2 * PIL + tol;
    bool mayEmpty = x < 0 && s <= tol, mustEmpty = x < 0 && s < -tol;
    c.count(mustFull ? "full" : mustEmpty ? "emptied" : x > 0 ? "dilated" : "eroded");
    if (Y.isEmpty()) { c.check(mayEmpty, "wrongly-empty", msg); return; }
    if (Y.isFull()) { c.check(mayFull, "wrongly-full", msg); return; }
    c.check(!mustEmpty, "not-empty", msg);
    c.check(!mustFull, "not-full", msg);
    if (mustEmpty || mustFull) return;
    auto off = [](LD p, LD q) { LD d = fmodl(fabsl(p - q), 2 * PIL); return std::min(d, 2 * PIL - d); };
    c.check(off(Y.getA().asRadians(), static_cast<LD>(a) - x) < tol && off(Y.getB().asRadians(), static_cast<LD>(b) + x) < tol, "end-points", msg);
    // The size distinguishes an arc from its complement.
    LD y = Y.getA() <= Y.getB() ? static_cast<LD>(Y.getB().asRadians()) - Y.getA().asRadians() : static_cast<LD>(Y.getB().asRadians()) - Y.getA().asRadians() + 2 * PIL;
    c.check(fabsl(y - s) < 4 * tol || (mayFull && y > 2 * PIL - 4 * tol) || (mayEmpty && y < 4 * tol), "size", msg);
    c.check(x < 0 || (Y.contains(T.getA()) && Y.contains(T.getB())), "dilation-loses-end-points", msg);
}

// Construction from arbitrary angles, sizes, centers and angles between points.
SECTION(construction, 200000) {
    Rng & r = c.rng;
    double a, b;
    switch (r.range(0, 4)) {
        case 0: a = angleValue(r); b = angleValue(r); break;
        case 1: a = r.uni(-20, 20); b = a + r.uni(-.5, 8); break;
        case 2: a = r.range(-16, 16) * (PI / 4); b = a + r.range(-1, 9) * (PI / 4); break;
        case 3: a = hostileDouble(r); b = r.chance(.5) ? hostileDouble(r) : a + r.uni(0, 6); break;
        default: a = r.uni(-1e4, 1e4); b = a + r.logUni(1e-12, 7);
    }
    double key[2] = {a, b};
    c.eval(hashBytes(key, sizeof key));
    NormalizedAngleInterval T;
    auto msg = [&] { return "(" + str(a) + ", " + str(b) + ") gave " + show(T); };
    bool nrm = a >= 0 && a <= TWO_PI && b >= 0 && b <= TWO_PI;
    try {
        T = NormalizedAngleInterval(Angle(a), Angle(b));
    } catch (std::invalid_argument const &) {
        c.count("rejected");
        c.check(!nrm && a > b, "rejected-valid", msg);
        return;
    }
    c.check(NormalizedAngleInterval::fromRadians(a, b) == T, "fromRadians", msg);
    if (a != a || b != b) { c.check(T.isEmpty(), "nan-not-empty", msg); return; }
    if (std::isinf(a) || std::isinf(b)) return;
    c.check(nrm || a <= b, "accepted-invalid", msg);
    LD s = static_cast<LD>(b) - a;
    LD tol = 4e-15L + 2e-16L * (std::fabs(a) + std::fabs(b));
    if (nrm) {
        c.check(T.getA().asRadians() == a && T.getB().asRadians() == b, "normalized-end-points", msg);
        if (s < 0) s += 2 * PIL;
    } else {
        // rounding is monotonic, so that a difference of at least a turn is one after rounding, too
        if (s >= TWO_PI) { c.count("full"); c.check(T.isFull(), "not-full", msg); return; }
        if (T.isFull()) { c.check(s >= 2 * PIL - tol, "wrongly-full", msg); return; }
    }
    if (tol > 0.1L) return;
    auto off = [](LD p, LD q) { LD d = fmodl(fabsl(p - q), 2 * PIL); return std::min(d, 2 * PIL - d); };
    c.check(off(T.getA().asRadians(), fmodl(static_cast<LD>(a), 2 * PIL)) < tol && off(T.getB().asRadians(), fmodl(static_cast<LD>(b), 2 * PIL)) < tol, "end-points", msg);
    LD y = T.getSize().asRadians();
    c.check(fabsl(y - s) < 2 * tol || 2 * PIL - fabsl(y - s) < 2 * tol, "size", [&] { return msg() + " of size " + str(static_cast<double>(y)); });
    if (s > 2 * tol && s < 2 * PIL - 2 * tol) {
        c.check(fabsl(y - s) < 2 * tol, "size-wrapped", [&] { return msg() + " of size " + str(static_cast<double>(y)); });
        LD m = T.getCenter().asRadians(), want = fmodl(fmodl((static_cast<LD>(a) + s / 2), 2 * PIL) + 2 * PIL, 2 * PIL);
        c.check(off(m, want) < tol, "center", [&] { return msg() + " with center " + str(static_cast<double>(m)); });
        c.check(T.contains(T.getCenter()), "center-outside", msg);
        // a point of the arc
        LD f = r.uni();
        double q = static_cast<double>(fmodl(fmodl(static_cast<LD>(a) + s * f, 2 * PIL) + 2 * PIL, 2 * PIL));
        if (f * s > 2 * tol && (1 - f) * s > 2 * tol) c.check(T.contains(NormalizedAngle(q)), "misses-point", [&] { return msg() + " without " + str(q); });
        LD g = s + (2 * PIL - s) * f;
        q = static_cast<double>(fmodl(fmodl(static_cast<LD>(a) + g, 2 * PIL) + 2 * PIL, 2 * PIL));
        if (f * (2 * PIL - s) > 2 * tol && (1 - f) * (2 * PIL - s) > 2 * tol) c.check(!T.contains(NormalizedAngle(q)), "has-outside-point", [&] { return msg() + " with " + str(q); });
    }
    if (nrm) {
        NormalizedAngle A(a), B(b);
        LD d = static_cast<LD>(b) - a;
        if (d < 0) d += 2 * PIL;
        c.check(fabsl(A.getAngleTo(B).asRadians() - d) < tol || fabsl(fabsl(A.getAngleTo(B).asRadians() - d) - 2 * PIL) < tol, "getAngleTo", [&] { return msg() + " " + str(A.getAngleTo(B).asRadians()); });
        LD sh = std::min(d, 2 * PIL - d);
        c.check(fabsl(NormalizedAngle::between(A, B).asRadians() - sh) < tol, "between", [&] { return msg() + " " + str(NormalizedAngle::between(A, B).asRadians()); });
    }
}
