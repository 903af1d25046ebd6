// C16: closed intervals of numbers and angles as point sets.
#include "gen.h"
using namespace vh;

namespace {
double val(double x) { return x; }
double val(Angle x) { return x.asRadians(); }
template <typename I> struct Make;
template <> struct Make<Interval1d> { typedef double S; static char const * name() { return "Interval1d"; } };
template <> struct Make<AngleInterval> { typedef Angle S; static char const * name() { return "AngleInterval"; } };

// End points from a palette, so that coincidences and neighbours are frequent.
double endpoint(Rng & r, std::vector<double> const & palette) {
    double d = r.chance(.8) ? r.pick(palette) : hostileDouble(r);
    if (r.chance(.1)) d = std::nextafter(d, r.chance(.5) ? 1e308 : -1e308);
    return d;
}

bool in(double a, double b, double p) { return a <= p && p <= b; }

template <typename I>
std::string show(I const & i) { return "[" + str(val(i.getA())) + ", " + str(val(i.getB())) + "]"; }

// The points that decide any relation between intervals with the given end points.
std::vector<double> probes(std::initializer_list<double> ends) {
    std::vector<double> p, e;
    for (double d : ends) if (d == d) e.push_back(d);
    std::sort(e.begin(), e.end());
    for (size_t i = 0; i < e.size(); ++i) {
        p.push_back(e[i]);
        p.push_back(std::nextafter(e[i], INFINITY));
        p.push_back(std::nextafter(e[i], -INFINITY));
        if (i) p.push_back(e[i - 1] / 2 + e[i] / 2);
    }
    std::sort(p.begin(), p.end());
    return p;
}

struct Rel { bool contains = true, disjoint = true, within = true; };
Rel relation(double a, double b, double xa, double xb, std::vector<double> const & ps) {
    Rel r;
    for (double p : ps) {
        bool t = in(a, b, p), x = in(xa, xb, p);
        if (t && x) r.disjoint = false;
        if (x && !t) r.contains = false;
        if (t && !x) r.within = false;
    }
    return r;
}

template <typename I>
void pair(Ctx & c) {
    typedef typename Make<I>::S S;
    Rng & r = c.rng;
    std::vector<double> palette;
    int n = r.range(2, 5);
    for (int i = 0; i < n; ++i) palette.push_back(r.chance(.3) ? hostileDouble(r) : r.uni(-5, 5));
    double a = endpoint(r, palette), b = endpoint(r, palette), xa = endpoint(r, palette), xb = endpoint(r, palette);
    if (r.chance(.3) && a > b) std::swap(a, b);
    if (r.chance(.3) && xa > xb) std::swap(xa, xb);
    if (r.chance(.1)) { xa = a; xb = b; }
    if (r.chance(.05)) { xa = r.chance(.5) ? xa : b; xb = xa; }
    S sp{endpoint(r, palette)};
    double pt = val(sp);
    I t{S{a}, S{b}}, x{S{xa}, S{xb}};
    if (r.chance(.03)) { t = I(); a = val(t.getA()); b = val(t.getB()); }
    if (r.chance(.03)) { t = I::full(); a = -INFINITY; b = INFINITY; }
    if (r.chance(.03)) { x = I::empty(); xa = val(x.getA()); xb = val(x.getB()); c.check(x.isEmpty(), "empty-not-empty", [&] { return show(x); }); }
    if (r.chance(.03)) { t = I{S{a}}; b = a; }
    double key[5] = {a, b, xa, xb, pt};
    c.eval(hashBytes(key, sizeof key));
    auto msg = [&] { return std::string(Make<I>::name()) + " [" + str(a) + ", " + str(b) + "] and [" + str(xa) + ", " + str(xb) + "], " + str(pt); };
    auto const ps = probes({a, b, xa, xb, pt, 0.0});
    bool te = !(a <= b), xe = !(xa <= xb), pe = pt != pt;
    c.count(te || xe ? "with an empty operand" : "without empty operands");
    c.check(bits(val(t.getA())) == bits(a) && bits(val(t.getB())) == bits(b), "end-points", msg);
    c.check(t.isEmpty() == te && x.isEmpty() == xe, "isEmpty", msg);
    // points
    c.check(t.contains(sp) == (pe || in(a, b, pt)), "contains-point", msg);
    c.check(t.intersects(sp) == in(a, b, pt) && t.isDisjointFrom(sp) == !in(a, b, pt), "intersects-point", msg);
    c.check(t.isWithin(sp) == (te || (!pe && a == pt && b == pt)), "within-point", msg);
    auto flags = [](Relationship q) { return (q & CONTAINS).any() + 2 * (q & DISJOINT).any() + 4 * (q & WITHIN).any(); };
    auto expected = [](Rel q) { return q.contains + 2 * q.disjoint + 4 * q.within; };
    {
        Rel q = relation(a, b, pt, pt, ps);
        c.check(flags(t.relate(sp)) == expected(q), "relate-point", msg);
    }
    // intervals
    Rel q = relation(a, b, xa, xb, ps);
    c.check(t.contains(x) == q.contains, "contains", msg);
    c.check(t.isDisjointFrom(x) == q.disjoint && t.intersects(x) == !q.disjoint, "disjoint", msg);
    c.check(t.isWithin(x) == q.within, "within", msg);
    c.check(flags(t.relate(x)) == expected(q), "relate", msg);
    c.check(flags(x.relate(t)) == q.within + 2 * q.disjoint + 4 * q.contains, "relate-inverse", msg);
    c.check((t == x) == ((te && xe) || (a == xa && b == xb)) && (t != x) == !(t == x), "equality", msg);
    c.check((t == sp) == ((te && pe) || (a == pt && b == pt)) && (t != sp) == !(t == sp), "equality-point", msg);
    // clipping
    auto unchanged = [&] { c.check(bits(val(x.getA())) == bits(xa) && bits(val(x.getB())) == bits(xb), "argument-modified", msg); };
    auto isSet = [&](I const & y, std::function<bool(double)> const & m, char const * k) {
        for (double p : ps) if (y.intersects(S{p}) != m(p)) { c.fail(k, msg() + " gave " + show(y) + ", wrong at " + str(p)); return; }
    };
    I y = t.clippedTo(x), z = t;
    c.check(&z.clipTo(x) == &z && z == y, "clipTo-differs", msg);
    isSet(y, [&](double p) { return in(a, b, p) && in(xa, xb, p); }, "clip");
    I u = t.clippedTo(sp), w = t;
    c.check(&w.clipTo(sp) == &w && w == u, "clipTo-point-differs", msg);
    isSet(u, [&](double p) { return in(a, b, p) && p == pt; }, "clip-point");
    // expanding
    y = t.expandedTo(x); z = t;
    c.check(&z.expandTo(x) == &z && z == y, "expandTo-differs", msg);
    double lo = te ? xa : (xe ? a : std::min(a, xa)), hi = te ? xb : (xe ? b : std::max(b, xb));
    isSet(y, [&](double p) { return in(lo, hi, p); }, "expand");
    u = t.expandedTo(sp); w = t;
    c.check(&w.expandTo(sp) == &w && w == u, "expandTo-point-differs", msg);
    lo = te ? pt : (pe ? a : std::min(a, pt)); hi = te ? pt : (pe ? b : std::max(b, pt));
    isSet(u, [&](double p) { return in(lo, hi, p); }, "expand-point");
    // self arguments
    z = t; z.clipTo(z); c.check(z == t, "clip-self", msg);
    z = t; z.expandTo(z); c.check(z == t, "expand-self", msg);
    unchanged();
    // dilation
    y = t.dilatedBy(sp); z = t;
    c.check(&z.dilateBy(sp) == &z && z == y, "dilateBy-differs", msg);
    I e = t.erodedBy(sp); z = t;
    c.check(&z.erodeBy(sp) == &z && z == e, "erodeBy-differs", msg);
    if (te || pe) {
        c.check(y == t && e == t, "dilate-no-effect", msg);
    } else {
        auto same = [](double p, double o) { return p == o || (p != p && o != o); };
        c.check(same(val(y.getA()), a - pt) && same(val(y.getB()), b + pt), "dilate", [&] { return msg() + " gave " + show(y); });
        c.check(same(val(e.getA()), a + pt) && same(val(e.getB()), b - pt), "erode", [&] { return msg() + " gave " + show(e); });
        c.check(same(val(t.getSize()), b - a), "size", msg);
        double m = val(t.getCenter());
        if (std::isfinite(a) && std::isfinite(b) && std::isfinite(a + b)) c.check(m >= a && m <= b && std::fabs((b - m) - (m - a)) <= 4e-16 * (std::fabs(a) + std::fabs(b)) + 1e-323, "center", [&] { return msg() + " gave " + str(m); });
    }
    c.check(bits(val(t.getA())) == bits(a) && bits(val(t.getB())) == bits(b), "receiver-modified", msg);
    c.sample(msg);
}
}  // namespace

SECTION(numbers, 400000) { pair<Interval1d>(c); }
SECTION(angles, 400000) { pair<AngleInterval>(c); }

// All pairs of intervals with end points in a set of eight special values.
SECTION(special_all, 4096) {
    static double const v[8] = {-INFINITY, -1.0, -0.0, 0.0, 5e-324, 1.0, INFINITY, NAN};
    double a = v[c.index & 7], b = v[(c.index >> 3) & 7], xa = v[(c.index >> 6) & 7], xb = v[(c.index >> 9) & 7];
    Interval1d t(a, b), x(xa, xb);
    c.eval(c.index + 1);
    auto msg = [&] { return show(t) + " and " + show(x); };
    auto const ps = probes({a, b, xa, xb});
    Rel q = relation(a, b, xa, xb, ps);
    Relationship f = t.relate(x);
    c.check(t.contains(x) == q.contains && t.isDisjointFrom(x) == q.disjoint && t.isWithin(x) == q.within, "special", msg);
    c.check((f & CONTAINS).any() == q.contains && (f & DISJOINT).any() == q.disjoint && (f & WITHIN).any() == q.within, "special-relate", msg);
    c.check(t.isFull() == (a == -INFINITY && b == INFINITY), "isFull", msg);
    Interval1d y = t.clippedTo(x), z = t.expandedTo(x);
    for (double p : ps) {
        c.check(y.intersects(p) == (in(a, b, p) && in(xa, xb, p)), "special-clip", msg);
        if (in(a, b, p) || in(xa, xb, p)) c.check(z.intersects(p), "special-expand", msg);
    }
    c.check(z.isEmpty() == (t.isEmpty() && x.isEmpty()), "special-expand-empty", msg);
}
