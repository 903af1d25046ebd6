// C24 helper: performs C++ operations on generated arguments and reports both
// arguments and outcome, so that the Python side can repeat them through the
// bindings. Requests on standard input: operation number and seed (8 bytes
// each). Replies: length, then argument values, then the outcome.
#define VH_NO_MAIN
#include <array>
#include <tuple>
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
#include "codecgen.h"
#include "pix.h"
#include "rs.h"
using namespace vh;

typedef std::string Out;
template <typename T> void raw(Out & o, T v) { o.append(reinterpret_cast<char const *>(&v), sizeof v); }

// Argument generation: values are correlated with those made before.
struct G {
    Rng r;
    rs::Values values;
    std::vector<double> doubles;
    std::vector<UnitVector3d> units;
    std::vector<RegionPtr> regions;
    bool small = false;  // keep pixelization levels and chunk counts low
    int pixLevel = 0;
    std::vector<std::uint64_t> indexes;
    explicit G(std::uint64_t seed) : r(seed), values(r) {}
    double scalar() {
        if (!doubles.empty() && r.chance(.5)) {
            double d = doubles[r.below(doubles.size())];
            return r.chance(.5) ? d : nudge(r, d);
        }
        double d = r.chance(.25) ? hostileDouble(r) : r.uni(-7, 7);
        doubles.push_back(d);
        return d;
    }
    UnitVector3d unit() {
        if (!regions.empty() && r.chance(.7)) {
            auto p = testPoints(r, *regions[r.below(regions.size())], 4);
            if (!p.empty()) return toUnit(p[r.below(p.size())]);
        }
        UnitVector3d u = units.empty() || r.chance(.3) ? anyUnit(r) : nearUnit(r, r.pick(units));
        units.push_back(u);
        return u;
    }
    Region const & region(int kind = -1) {
        if (kind < 0) kind = r.range(0, NKINDS - 1);
        RegionPtr p;
        if (!regions.empty() && r.chance(.8)) p = relatedRegion(r, *regions.back(), kind);
        else if (r.chance(.15)) {
            // the degenerate ones
            switch (kind) {
                case CIRCLE: p = r.chance(.5) ? Circle::empty().clone() : Circle::full().clone(); break;
                case ELLIPSE: p = r.chance(.5) ? Ellipse::empty().clone() : Ellipse::full().clone(); break;
                case BOX: p = r.chance(.5) ? Box::empty().clone() : Box::full().clone(); break;
                default: p = anyRegion(r, kind);
            }
        } else p = anyRegion(r, kind);
        regions.push_back(std::move(p));
        return *regions.back();
    }
    int level(int max) {
        pixLevel = small ? r.range(0, 4) : r.range(0, max);
        return pixLevel;
    }
};

template <typename T> struct Wire;
template <typename T> struct ByValue { typedef T Holder; static T & ref(T & t) { return t; } };

#define SCALAR_WIRE(T, CODE, GEN) \
    template <> struct Wire<T> : ByValue<T> { static std::string code() { return CODE; } static T make(G & g) { return GEN; } static void put(Out & o, T const & v) { raw(o, v); } };
SCALAR_WIRE(double, "d", g.scalar())
SCALAR_WIRE(std::int32_t, "i", g.r.chance(.7) ? g.r.range(-3, 40) : static_cast<std::int32_t>(g.r.u64()))
SCALAR_WIRE(std::uint32_t, "j", static_cast<std::uint32_t>(g.r.u64() >> g.r.range(32, 63)))
SCALAR_WIRE(std::uint8_t, "y", static_cast<std::uint8_t>(g.r.u64()))
SCALAR_WIRE(bool, "b", g.r.chance(.5))
// An order of a Hilbert curve.
struct Order { std::int32_t m; };
SCALAR_WIRE(Order, "i", Order{g.r.range(0, 32)})
template <> struct Wire<std::uint64_t> : ByValue<std::uint64_t> {
    static std::string code() { return "u"; }
    static std::uint64_t make(G & g) {
        if (!g.indexes.empty() && g.r.chance(.8)) return g.indexes[g.r.below(g.indexes.size())];
        return g.r.chance(.6) ? g.values(g.r) : g.r.u64() >> g.r.range(0, 63);
    }
    static void put(Out & o, std::uint64_t v) { raw(o, v); }
};
template <> struct Wire<std::string> : ByValue<std::string> {
    static std::string code() { return "s"; }
    static void put(Out & o, std::string const & v) { raw(o, static_cast<std::uint32_t>(v.size())); o += v; }
};
template <> struct Wire<Relationship> : ByValue<Relationship> {
    static std::string code() { return "r"; }
    static Relationship make(G & g) { return Relationship(g.r.below(8)); }
    static void put(Out & o, Relationship const & v) { raw(o, static_cast<std::uint64_t>(v.to_ulong())); }
};
template <> struct Wire<Angle> : ByValue<Angle> {
    static std::string code() { return "A"; }
    static Angle make(G & g) { return Angle(g.scalar()); }
    static void put(Out & o, Angle v) { raw(o, v.asRadians()); }
};
template <> struct Wire<NormalizedAngle> : ByValue<NormalizedAngle> {
    static std::string code() { return "N"; }
    static NormalizedAngle make(G & g) { NormalizedAngle a = NormalizedAngle::fromRadians(g.scalar()); g.doubles.push_back(a.asRadians()); return a; }
    static void put(Out & o, NormalizedAngle v) { raw(o, v.asRadians()); }
};
template <> struct Wire<Vector3d> : ByValue<Vector3d> {
    static std::string code() { return "V"; }
    static Vector3d make(G & g) {
        if (g.r.chance(.3)) return Vector3d(g.unit());
        if (g.r.chance(.1)) return Vector3d();
        double x = g.scalar(), y = g.scalar(), z = g.scalar();
        return Vector3d(x, y, z);
    }
    static void put(Out & o, Vector3d const & v) { raw(o, v.x()); raw(o, v.y()); raw(o, v.z()); }
};
template <> struct Wire<UnitVector3d> : ByValue<UnitVector3d> {
    static std::string code() { return "W"; }
    static UnitVector3d make(G & g) { return g.unit(); }
    static void put(Out & o, UnitVector3d const & v) { raw(o, v.x()); raw(o, v.y()); raw(o, v.z()); }
};
template <> struct Wire<LonLat> : ByValue<LonLat> {
    static std::string code() { return "L"; }
    static LonLat make(G & g) {
        if (g.r.chance(.6)) return LonLat(g.unit());
        double lon = g.scalar(), lat = g.r.uni(-PI / 2, PI / 2);
        if (g.r.chance(.1)) lat = g.r.pick({PI / 2, -PI / 2, 0.0});
        return LonLat::fromRadians(lon, lat);
    }
    static void put(Out & o, LonLat const & v) { raw(o, v.getLon().asRadians()); raw(o, v.getLat().asRadians()); }
};
template <> struct Wire<Matrix3d> : ByValue<Matrix3d> {
    static std::string code() { return "M"; }
    static Matrix3d make(G & g) { double m[9]; for (double & d : m) d = g.scalar(); return Matrix3d(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]); }
    static void put(Out & o, Matrix3d const & m) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) raw(o, m(i, j)); }
};
template <> struct Wire<Interval1d> : ByValue<Interval1d> {
    static std::string code() { return "I"; }
    static Interval1d make(G & g) { if (g.r.chance(.1)) return g.r.chance(.5) ? Interval1d::empty() : Interval1d::full(); double a = g.scalar(), b = g.scalar(); return Interval1d(a, b); }
    static void put(Out & o, Interval1d const & v) { raw(o, v.getA()); raw(o, v.getB()); }
};
template <> struct Wire<AngleInterval> : ByValue<AngleInterval> {
    static std::string code() { return "J"; }
    static AngleInterval make(G & g) { if (g.r.chance(.1)) return g.r.chance(.5) ? AngleInterval::empty() : AngleInterval::full(); double a = g.scalar(), b = g.scalar(); return AngleInterval(Angle(a), Angle(b)); }
    static void put(Out & o, AngleInterval const & v) { raw(o, v.getA().asRadians()); raw(o, v.getB().asRadians()); }
};
template <> struct Wire<NormalizedAngleInterval> : ByValue<NormalizedAngleInterval> {
    static std::string code() { return "K"; }
    static NormalizedAngleInterval make(G & g) {
        if (g.r.chance(.1)) return g.r.chance(.5) ? NormalizedAngleInterval::empty() : NormalizedAngleInterval::full();
        NormalizedAngle a = Wire<NormalizedAngle>::make(g), b = Wire<NormalizedAngle>::make(g);
        return NormalizedAngleInterval(a, b);
    }
    static void put(Out & o, NormalizedAngleInterval const & v) { raw(o, v.getA().asRadians()); raw(o, v.getB().asRadians()); }
};
template <> struct Wire<Box3d> : ByValue<Box3d> {
    static std::string code() { return "3"; }
    static Box3d make(G & g) {
        if (g.r.chance(.1)) return g.r.pick({Box3d::empty(), Box3d::full(), Box3d::aroundUnitSphere()});
        Interval1d x = Wire<Interval1d>::make(g), y = Wire<Interval1d>::make(g), z = Wire<Interval1d>::make(g);
        return Box3d(x, y, z);
    }
    static void put(Out & o, Box3d const & v) { for (Interval1d const & i : {v.x(), v.y(), v.z()}) Wire<Interval1d>::put(o, i); }
};
inline void putBytes(Out & o, std::vector<std::uint8_t> const & b) { raw(o, static_cast<std::uint32_t>(b.size())); o.append(reinterpret_cast<char const *>(b.data()), b.size()); }
struct Bytes_ { std::vector<std::uint8_t> b; };
template <> struct Wire<Bytes_> : ByValue<Bytes_> {
    static std::string code() { return "X"; }
    static Bytes_ make(G & g) { auto b = g.region().encode(); if (g.r.chance(.3)) b = mutate(g.r, b); return {b}; }
    static void put(Out & o, Bytes_ const & v) { putBytes(o, v.b); }
};
#define REGION_WIRE(T, CODE, KIND) \
    template <> struct Wire<T> { \
        typedef std::unique_ptr<T> Holder; \
        static T & ref(Holder & h) { return *h; } \
        static std::string code() { return CODE; } \
        static Holder make(G & g) { auto p = g.region(KIND).clone(); return Holder(dynamic_cast<T *>(p.release())); } \
        static void put(Out & o, T const & v) { putBytes(o, v.encode()); } \
    };
REGION_WIRE(Region, "R", -1)
REGION_WIRE(Circle, "C", CIRCLE)
REGION_WIRE(Ellipse, "E", ELLIPSE)
REGION_WIRE(Box, "B", BOX)
REGION_WIRE(ConvexPolygon, "P", POLYGON)
REGION_WIRE(UnionRegion, "U", UNION)
REGION_WIRE(IntersectionRegion, "T", INTERSECTION)
REGION_WIRE(CompoundRegion, "G", (g.r.chance(.5) ? UNION : INTERSECTION))
template <typename T> struct Wire<std::unique_ptr<T>> {
    static std::string code() { return "R"; }
    static void put(Out & o, std::unique_ptr<T> const & v) { putBytes(o, v->encode()); }
};
template <> struct Wire<RangeSet> : ByValue<RangeSet> {
    static std::string code() { return "S"; }
    static RangeSet make(G & g) {
        RangeSet s;
        int n = g.r.range(0, 6);
        for (int i = 0; i < n; ++i) { std::uint64_t a = g.values(g.r), b = g.values(g.r); s.insert(a, b); g.indexes.push_back(a); g.indexes.push_back(b + g.r.range(-1, 1)); }
        if (g.r.chance(.1)) s.fill();
        return s;
    }
    static void put(Out & o, RangeSet const & s) { raw(o, static_cast<std::uint32_t>(s.size())); for (auto t : s) { raw(o, std::get<0>(t)); raw(o, std::get<1>(t)); } }
};
template <typename P> void pixIndexes(G & g, Pix const & p) {
    for (int i = 0; i < 3; ++i) g.indexes.push_back(p.randomIndex(g.r));
    if (g.r.chance(.3)) g.indexes.push_back(g.r.u64() >> g.r.range(0, 63));
    if (g.r.chance(.2)) g.indexes.push_back(p.last() + 1);
    g.units.push_back(pixPoint(g.r, p));
}
#define PIX_WIRE(T, CODE, KIND) \
    template <> struct Wire<T> : ByValue<T> { \
        static std::string code() { return CODE; } \
        static T make(G & g) { Pix p(KIND, g.level(T::MAX_LEVEL)); pixIndexes<T>(g, p); return T(p.level); } \
        static void put(Out & o, T const & v) { raw(o, static_cast<std::int32_t>(v.getLevel())); } \
    };
PIX_WIRE(HtmPixelization, "H", 0)
PIX_WIRE(Q3cPixelization, "Q", 1)
PIX_WIRE(Mq3cPixelization, "m", 2)
template <> struct Wire<Chunker> : ByValue<Chunker> {
    static std::string code() { return "k"; }
    static Chunker make(G & g) { return g.small ? Chunker(g.r.range(1, 12), g.r.range(1, 5)) : Chunker(g.r.range(1, 85), g.r.range(1, 12)); }
    static void put(Out & o, Chunker const & v) { raw(o, v.getNumStripes()); raw(o, v.getNumSubStripesPerStripe()); }
};
template <> struct Wire<SubChunks> : ByValue<SubChunks> {
    static std::string code() { return "Z"; }
    static void put(Out & o, SubChunks const & v) { raw(o, v.chunkId); raw(o, static_cast<std::uint32_t>(v.subChunkIds.size())); for (auto i : v.subChunkIds) raw(o, i); }
};
template <typename T> struct Wire<std::vector<T>> : ByValue<std::vector<T>> {
    static std::string code() { return "[" + Wire<T>::code(); }
    static std::vector<T> make(G & g) {
        // only used for points
        std::vector<T> v;
        if (g.r.chance(.8)) v = static_cast<ConvexPolygon const &>(g.region(POLYGON)).getVertices();
        int n = g.r.chance(.5) ? 0 : g.r.range(1, 3);
        for (int i = 0; i < n; ++i) v.push_back(Wire<T>::make(g));
        return v;
    }
    static void put(Out & o, std::vector<T> const & v) { raw(o, static_cast<std::uint32_t>(v.size())); for (auto const & x : v) Wire<T>::put(o, x); }
};
template <> struct Wire<std::tuple<std::uint32_t, std::uint32_t>> {
    static std::string code() { return "t"; }
    static void put(Out & o, std::tuple<std::uint32_t, std::uint32_t> const & v) { raw(o, std::get<0>(v)); raw(o, std::get<1>(v)); }
};

struct Op { std::string name, ret, args, kind, kw; std::function<Out(G &)> run; };
static std::vector<Op> & ops() { static std::vector<Op> v; return v; }

template <typename T> using Bare = std::remove_const_t<std::remove_reference_t<T>>;

template <typename R, typename... A, size_t... I>
Out call(R (*f)(A...), G & g, std::index_sequence<I...>) {
    typedef std::tuple<typename Wire<Bare<A>>::Holder...> Args;
    // braces order the evaluation
    Args args{Wire<Bare<A>>::make(g)...};
    Out o;
    (Wire<Bare<A>>::put(o, Wire<Bare<A>>::ref(std::get<I>(args))), ...);
    auto exception = [&](char c, std::exception const & e) { o += c; Wire<std::string>::put(o, e.what()); };
    constexpr bool mutates = ((std::is_lvalue_reference_v<A> && !std::is_const_v<std::remove_reference_t<A>>) || ... || false);
    try {
        Out v;
        if constexpr (std::is_void_v<R> || std::is_lvalue_reference_v<R>) f(Wire<Bare<A>>::ref(std::get<I>(args))...);
        else { R r = f(Wire<Bare<A>>::ref(std::get<I>(args))...); Wire<Bare<R>>::put(v, r); }
        o += 'v';
        o += v;
    } catch (std::invalid_argument const & e) { exception('V', e); }
    catch (std::domain_error const & e) { exception('V', e); }
    catch (std::length_error const & e) { exception('V', e); }
    catch (std::out_of_range const & e) { exception('I', e); }
    catch (std::range_error const & e) { exception('V', e); }
    catch (std::overflow_error const & e) { exception('O', e); }
    catch (std::exception const & e) { exception('R', e); }
    if constexpr (mutates) {
        // the state of the (first) argument afterwards
        Out s;
        bool first = true;
        ((first ? (Wire<Bare<A>>::put(s, Wire<Bare<A>>::ref(std::get<I>(args))), first = false) : false), ...);
        o += s;
    }
    return o;
}

template <typename R, typename... A>
void op(std::string name, R (*f)(A...), std::string kw = "") {
    Op p;
    p.name = name;
    p.kw = kw;
    if constexpr (std::is_void_v<R>) p.ret = "n";
    else if constexpr (std::is_lvalue_reference_v<R>) p.ret = "=";
    else p.ret = Wire<Bare<R>>::code();
    constexpr bool mutates = ((std::is_lvalue_reference_v<A> && !std::is_const_v<std::remove_reference_t<A>>) || ... || false);
    p.kind = mutates ? "!" : ".";
    ((p.args += Wire<Bare<A>>::code()), ...);
    p.run = [f](G & g) { return call(f, g, std::index_sequence_for<A...>()); };
    ops().push_back(std::move(p));
}

// Shorthands: constant, mutating, static methods and constructors.
#define C0(T, m) op(#T "." #m, +[](T const & s) { return s.m(); })
#define C1(T, m, A, ...) op(#T "." #m, +[](T const & s, A const & a) { return s.m(a); }, ## __VA_ARGS__)
#define C2(T, m, A, B, ...) op(#T "." #m, +[](T const & s, A const & a, B const & b) { return s.m(a, b); }, ## __VA_ARGS__)
#define C3(T, m, A, B, D, ...) op(#T "." #m, +[](T const & s, A const & a, B const & b, D const & d) { return s.m(a, b, d); }, ## __VA_ARGS__)
#define M0(T, m) op(#T "." #m, +[](T & s) -> decltype(s.m()) { return s.m(); })
#define M1(T, m, A, ...) op(#T "." #m, +[](T & s, A const & a) -> decltype(s.m(a)) { return s.m(a); }, ## __VA_ARGS__)
#define M2(T, m, A, B, ...) op(#T "." #m, +[](T & s, A const & a, B const & b) -> decltype(s.m(a, b)) { return s.m(a, b); }, ## __VA_ARGS__)
#define M3(T, m, A, B, D, ...) op(#T "." #m, +[](T & s, A const & a, B const & b, D const & d) -> decltype(s.m(a, b, d)) { return s.m(a, b, d); }, ## __VA_ARGS__)
#define S0(T, m) op(#T "::" #m, +[]() { return T::m(); })
#define S1(T, m, A, ...) op(#T "::" #m, +[](A const & a) { return T::m(a); }, ## __VA_ARGS__)
#define S2(T, m, A, B, ...) op(#T "::" #m, +[](A const & a, B const & b) { return T::m(a, b); }, ## __VA_ARGS__)
#define S4(T, m, A, ...) op(#T "::" #m, +[](A const & a, A const & b, A const & d, A const & e) { return T::m(a, b, d, e); }, ## __VA_ARGS__)
#define K0(T) op(#T "()", +[]() { return T(); })
#define K1(T, A, ...) op(#T "()", +[](A const & a) { return T(a); }, ## __VA_ARGS__)
#define K2(T, A, B, ...) op(#T "()", +[](A const & a, B const & b) { return T(a, b); }, ## __VA_ARGS__)
#define K3(T, A, B, D, ...) op(#T "()", +[](A const & a, B const & b, D const & d) { return T(a, b, d); }, ## __VA_ARGS__)
#define K4(T, A, B, D, E, ...) op(#T "()", +[](A const & a, B const & b, D const & d, E const & e) { return T(a, b, d, e); }, ## __VA_ARGS__)
#define F1(f, A, ...) op("!" #f, +[](A const & a) { return f(a); }, ## __VA_ARGS__)
#define F2(f, A, B, ...) op("!" #f, +[](A const & a, B const & b) { return f(a, b); }, ## __VA_ARGS__)
#define F3(f, A, B, D, ...) op("!" #f, +[](A const & a, B const & b, D const & d) { return f(a, b, d); }, ## __VA_ARGS__)
#define F4(f, A, B, D, E, ...) op("!" #f, +[](A const & a, B const & b, D const & d, E const & e) { return f(a, b, d, e); }, ## __VA_ARGS__)
// Operators
#define B1(T, py, A, sym) op(#T "." #py, +[](T const & s, A const & a) { return s sym a; })
#define I1(T, py, A, sym) op(#T "." #py, +[](T & s, A const & a) -> T & { return s sym a; })
#define EQ(T, A) B1(T, __eq__, A, ==); B1(T, __ne__, A, !=)
#define NEG(T) op(#T ".__neg__", +[](T const & s) { return -s; })

template <typename T, typename S> void intervals(std::string n) {
    op(n + ".__eq__", +[](T const & a, T const & b) { return a == b; });
    op(n + ".__eq__", +[](T const & a, S const & b) { return a == b; });
    op(n + ".__ne__", +[](T const & a, T const & b) { return a != b; });
    op(n + ".__ne__", +[](T const & a, S const & b) { return a != b; });
    op(n + ".getA", +[](T const & a) { return a.getA(); });
    op(n + ".getB", +[](T const & a) { return a.getB(); });
    op(n + ".isEmpty", +[](T const & a) { return a.isEmpty(); });
    op(n + ".getCenter", +[](T const & a) { return a.getCenter(); });
    op(n + ".getSize", +[](T const & a) { return a.getSize(); });
#define BOTH(py, m) op(n + py, +[](T const & a, T const & b) { return a.m(b); }); op(n + py, +[](T const & a, S const & b) { return a.m(b); });
    BOTH(".__contains__", contains) BOTH(".contains", contains) BOTH(".isDisjointFrom", isDisjointFrom) BOTH(".intersects", intersects)
    BOTH(".isWithin", isWithin) BOTH(".relate", relate)
#undef BOTH
#define CONV(py, m) op(n + py, +[](T const & a, T const & b) { T t = a.m(b); return t; }); op(n + py, +[](T const & a, S const & b) { T t = a.m(b); return t; });
    CONV(".clippedTo", clippedTo) CONV(".expandedTo", expandedTo)
#undef CONV
#define MUT(py, m) op(n + py, +[](T & a, T const & b) -> T & { a.m(b); return a; }); op(n + py, +[](T & a, S const & b) -> T & { a.m(b); return a; });
    MUT(".clipTo", clipTo) MUT(".expandTo", expandTo)
#undef MUT
    op(n + ".dilatedBy", +[](T const & a, S const & b) { T t = a.dilatedBy(b); return t; });
    op(n + ".erodedBy", +[](T const & a, S const & b) { T t = a.erodedBy(b); return t; });
    op(n + ".dilateBy", +[](T & a, S const & b) -> T & { a.dilateBy(b); return a; });
    op(n + ".erodeBy", +[](T & a, S const & b) -> T & { a.erodeBy(b); return a; });
}

template <typename P> void pixelization(std::string n) {
    op(n + ".universe", +[](P const & p) { return p.universe(); });
    op(n + ".pixel", +[](P const & p, std::uint64_t const & i) { return p.pixel(i); }, "i");
    op(n + ".index", +[](P const & p, UnitVector3d const & v) { return p.index(v); }, "i");
    op(n + ".toString", +[](P const & p, std::uint64_t const & i) { return p.toString(i); }, "i");
    op(n + ".envelope", +[](P const & p, Region const & r) { return p.envelope(r); }, "region");
    op(n + ".interior", +[](P const & p, Region const & r) { return p.interior(r); }, "region");
    op(n + ".envelope", +[](P const & p, Region const & r, std::uint32_t const & m) { return p.envelope(r, m); }, "region,maxRanges");
    op(n + ".interior", +[](P const & p, Region const & r, std::uint32_t const & m) { return p.interior(r, m); }, "region,maxRanges");
    op(n + ".getLevel", +[](P const & p) -> std::int32_t { return p.getLevel(); });
    op(n + ".__eq__", +[](P const & p, P const & q) { return p.getLevel() == q.getLevel(); });
    op(n + ".__ne__", +[](P const & p, P const & q) { return p.getLevel() != q.getLevel(); });
    op(n + "()", +[](std::int32_t const & l) { return P(l); }, "level");
    op(n + "()", +[](P const & p) { return P(p); });
    op(n + "#MAX_LEVEL", +[]() -> std::int32_t { return P::MAX_LEVEL; });
}

typedef std::uint64_t u64;

static void define() {
    // Angle
    S0(Angle, nan); S1(Angle, fromDegrees, double); S1(Angle, fromRadians, double);
    K0(Angle); K1(Angle, double, "radians"); K1(Angle, Angle, "angle"); K1(Angle, NormalizedAngle, "normalizedAngle");
    EQ(Angle, Angle); B1(Angle, __lt__, Angle, <); B1(Angle, __gt__, Angle, >); B1(Angle, __le__, Angle, <=); B1(Angle, __ge__, Angle, >=);
    NEG(Angle); B1(Angle, __add__, Angle, +); B1(Angle, __sub__, Angle, -); B1(Angle, __mul__, double, *);
    op("Angle.__rmul__", +[](Angle const & a, double const & d) { return d * a; });
    B1(Angle, __truediv__, double, /); B1(Angle, __truediv__, Angle, /);
    I1(Angle, __iadd__, Angle, +=); I1(Angle, __isub__, Angle, -=); I1(Angle, __imul__, double, *=); I1(Angle, __itruediv__, double, /=);
    C0(Angle, asDegrees); C0(Angle, asRadians); C0(Angle, isNormalized); C0(Angle, isNan);

    // NormalizedAngle
    S0(NormalizedAngle, nan); S1(NormalizedAngle, fromDegrees, double); S1(NormalizedAngle, fromRadians, double);
    S2(NormalizedAngle, between, NormalizedAngle, NormalizedAngle, "a,b"); S2(NormalizedAngle, center, NormalizedAngle, NormalizedAngle, "a,b");
    K0(NormalizedAngle); K1(NormalizedAngle, NormalizedAngle); K1(NormalizedAngle, Angle); K1(NormalizedAngle, double, "radians");
    K2(NormalizedAngle, LonLat, LonLat, "a,b"); K2(NormalizedAngle, Vector3d, Vector3d, "a,b");
    EQ(NormalizedAngle, Angle); B1(NormalizedAngle, __lt__, Angle, <); B1(NormalizedAngle, __gt__, Angle, >); B1(NormalizedAngle, __le__, Angle, <=); B1(NormalizedAngle, __ge__, Angle, >=);
    NEG(NormalizedAngle); B1(NormalizedAngle, __add__, Angle, +); B1(NormalizedAngle, __sub__, Angle, -); B1(NormalizedAngle, __mul__, double, *);
    op("NormalizedAngle.__rmul__", +[](NormalizedAngle const & a, double const & d) { return d * a; });
    B1(NormalizedAngle, __truediv__, double, /); B1(NormalizedAngle, __truediv__, Angle, /);
    C0(NormalizedAngle, asDegrees); C0(NormalizedAngle, asRadians); C0(NormalizedAngle, isNan); C1(NormalizedAngle, getAngleTo, NormalizedAngle);

    // LonLat
    S2(LonLat, fromDegrees, double, double); S2(LonLat, fromRadians, double, double); S1(LonLat, latitudeOf, Vector3d); S1(LonLat, longitudeOf, Vector3d);
    K0(LonLat); K1(LonLat, LonLat); K2(LonLat, NormalizedAngle, Angle, "lon,lat"); K1(LonLat, Vector3d, "vector");
    EQ(LonLat, LonLat); C0(LonLat, getLon); C0(LonLat, getLat);

    // Vector3d
    K0(Vector3d); K3(Vector3d, double, double, double, "x,y,z"); K1(Vector3d, Vector3d, "vector"); K1(Vector3d, UnitVector3d);
    EQ(Vector3d, Vector3d); NEG(Vector3d); B1(Vector3d, __add__, Vector3d, +); B1(Vector3d, __sub__, Vector3d, -); B1(Vector3d, __mul__, double, *); B1(Vector3d, __truediv__, double, /);
    I1(Vector3d, __iadd__, Vector3d, +=); I1(Vector3d, __isub__, Vector3d, -=); I1(Vector3d, __imul__, double, *=); I1(Vector3d, __itruediv__, double, /=);
    C0(Vector3d, x); C0(Vector3d, y); C0(Vector3d, z); C1(Vector3d, dot, Vector3d); C0(Vector3d, getSquaredNorm); C0(Vector3d, getNorm); C0(Vector3d, isZero);
    M0(Vector3d, normalize); C0(Vector3d, isNormalized); C1(Vector3d, cross, Vector3d); C1(Vector3d, cwiseProduct, Vector3d);
    C2(Vector3d, rotatedAround, UnitVector3d, Angle, "axis,angle");

    // UnitVector3d
    S1(UnitVector3d, orthogonalTo, Vector3d, "vector"); S2(UnitVector3d, orthogonalTo, Vector3d, Vector3d, "vector1,vector2");
    S1(UnitVector3d, orthogonalTo, NormalizedAngle, "meridian"); S1(UnitVector3d, northFrom, Vector3d, "vector");
    S0(UnitVector3d, X); S0(UnitVector3d, Y); S0(UnitVector3d, Z);
    K0(UnitVector3d); K1(UnitVector3d, UnitVector3d, "unitVector"); K1(UnitVector3d, Vector3d, "vector"); K3(UnitVector3d, double, double, double, "x,y,z");
    K1(UnitVector3d, LonLat, "lonLat"); K2(UnitVector3d, Angle, Angle, "lon,lat");
    EQ(UnitVector3d, UnitVector3d); NEG(UnitVector3d); B1(UnitVector3d, __add__, Vector3d, +); B1(UnitVector3d, __sub__, Vector3d, -); B1(UnitVector3d, __mul__, double, *); B1(UnitVector3d, __truediv__, double, /);
    C0(UnitVector3d, x); C0(UnitVector3d, y); C0(UnitVector3d, z); C1(UnitVector3d, dot, Vector3d); C1(UnitVector3d, cross, Vector3d); C1(UnitVector3d, robustCross, UnitVector3d);
    C1(UnitVector3d, cwiseProduct, Vector3d); C2(UnitVector3d, rotatedAround, UnitVector3d, Angle, "axis,angle");

    // Matrix3d
    K0(Matrix3d);
    op("Matrix3d()", +[](double const & a, double const & b, double const & c, double const & d, double const & e, double const & f, double const & g, double const & h, double const & i) {
        return Matrix3d(a, b, c, d, e, f, g, h, i); }, "m00,m01,m02,m10,m11,m12,m20,m21,m22");
    K1(Matrix3d, Vector3d, "diagonal"); K1(Matrix3d, double, "scale"); K1(Matrix3d, Matrix3d, "matrix");
    EQ(Matrix3d, Matrix3d); C1(Matrix3d, inner, Matrix3d, "matrix"); C0(Matrix3d, getSquaredNorm); C0(Matrix3d, getNorm);
    B1(Matrix3d, __mul__, Vector3d, *); B1(Matrix3d, __mul__, Matrix3d, *); B1(Matrix3d, __add__, Matrix3d, +); B1(Matrix3d, __sub__, Matrix3d, -);
    C1(Matrix3d, cwiseProduct, Matrix3d); C0(Matrix3d, transpose); C0(Matrix3d, inverse);

    // Intervals
    intervals<Interval1d, double>("Interval1d");
    S0(Interval1d, empty); S0(Interval1d, full); K0(Interval1d); K1(Interval1d, double, "x"); K2(Interval1d, double, double, "x,y"); K1(Interval1d, Interval1d, "interval"); C0(Interval1d, isFull);
    intervals<AngleInterval, Angle>("AngleInterval");
    S2(AngleInterval, fromDegrees, double, double, "x,y"); S2(AngleInterval, fromRadians, double, double, "x,y"); S0(AngleInterval, empty); S0(AngleInterval, full);
    K0(AngleInterval); K1(AngleInterval, Angle, "x"); K2(AngleInterval, Angle, Angle, "x,y"); K1(AngleInterval, AngleInterval, "interval");
    intervals<NormalizedAngleInterval, NormalizedAngle>("NormalizedAngleInterval");
    S2(NormalizedAngleInterval, fromDegrees, double, double, "x,y"); S2(NormalizedAngleInterval, fromRadians, double, double, "x,y"); S0(NormalizedAngleInterval, empty); S0(NormalizedAngleInterval, full);
    K0(NormalizedAngleInterval); K1(NormalizedAngleInterval, Angle, "x"); K1(NormalizedAngleInterval, NormalizedAngle, "x");
    K2(NormalizedAngleInterval, Angle, Angle, "x,y"); K2(NormalizedAngleInterval, NormalizedAngle, NormalizedAngle, "x,y"); K1(NormalizedAngleInterval, NormalizedAngleInterval, "angleInterval");
    C0(NormalizedAngleInterval, isFull); C0(NormalizedAngleInterval, wraps);

    // Box
    op("Box#TYPE_CODE", +[]() -> std::int32_t { return Box::TYPE_CODE; });
    op("Circle#TYPE_CODE", +[]() -> std::int32_t { return Circle::TYPE_CODE; });
    op("Ellipse#TYPE_CODE", +[]() -> std::int32_t { return Ellipse::TYPE_CODE; });
    op("ConvexPolygon#TYPE_CODE", +[]() -> std::int32_t { return ConvexPolygon::TYPE_CODE; });
    op("UnionRegion#TYPE_CODE", +[]() -> std::int32_t { return UnionRegion::TYPE_CODE; });
    op("IntersectionRegion#TYPE_CODE", +[]() -> std::int32_t { return IntersectionRegion::TYPE_CODE; });
    S4(Box, fromDegrees, double, "lon1,lat1,lon2,lat2"); S4(Box, fromRadians, double, "lon1,lat1,lon2,lat2");
    S0(Box, empty); S0(Box, full); S2(Box, halfWidthForCircle, Angle, Angle, "radius,lat"); S0(Box, allLongitudes); S0(Box, allLatitudes);
    K0(Box); K1(Box, LonLat, "point"); K2(Box, LonLat, LonLat, "point1,point2"); K3(Box, LonLat, Angle, Angle, "center,width,height");
    K2(Box, NormalizedAngleInterval, AngleInterval, "lon,lat"); K1(Box, Box, "box");
    EQ(Box, Box); EQ(Box, LonLat);
    op("Box.__contains__", +[](Box const & b, LonLat const & p) { return b.contains(p); });
    op("Box.__contains__", +[](Box const & b, Box const & p) { return b.contains(p); });
    op("Box.__contains__", +[](Box const & b, UnitVector3d const & p) { return b.contains(p); });
    C0(Box, getLon); C0(Box, getLat); C0(Box, isEmpty); C0(Box, isFull); C0(Box, getCenter); C0(Box, getWidth); C0(Box, getHeight); C0(Box, getArea);
    C1(Box, contains, LonLat); C1(Box, contains, Box); C1(Box, contains, UnitVector3d); C1(Box, isDisjointFrom, LonLat); C1(Box, isDisjointFrom, Box);
    C1(Box, intersects, LonLat); C1(Box, intersects, Box); C1(Box, isWithin, LonLat); C1(Box, isWithin, Box);
    M1(Box, clipTo, LonLat); M1(Box, clipTo, Box); C1(Box, clippedTo, LonLat); C1(Box, clippedTo, Box);
    M1(Box, expandTo, LonLat); M1(Box, expandTo, Box); C1(Box, expandedTo, LonLat); C1(Box, expandedTo, Box);
    M1(Box, dilateBy, Angle, "angle"); M2(Box, dilateBy, Angle, Angle, "width,height"); C1(Box, dilatedBy, Angle, "angle"); C2(Box, dilatedBy, Angle, Angle, "width,height");
    M1(Box, erodeBy, Angle, "angle"); M2(Box, erodeBy, Angle, Angle, "width,height"); C1(Box, erodedBy, Angle, "angle"); C2(Box, erodedBy, Angle, Angle, "width,height");
    C1(Box, relate, LonLat, "point"); C1(Box, relate, Region, "region");

    // Box3d
    S0(Box3d, empty); S0(Box3d, full); S0(Box3d, aroundUnitSphere);
    K0(Box3d); K1(Box3d, Vector3d, "vector"); K2(Box3d, Vector3d, Vector3d, "vector1,vector2"); K4(Box3d, Vector3d, double, double, double, "center,halfWidth,halfHeight,halfDepth");
    K3(Box3d, Interval1d, Interval1d, Interval1d, "x,y,z"); K1(Box3d, Box3d, "box3d");
    EQ(Box3d, Box3d); EQ(Box3d, Vector3d);
    op("Box3d.__contains__", +[](Box3d const & b, Vector3d const & p) { return b.contains(p); });
    op("Box3d.__contains__", +[](Box3d const & b, Box3d const & p) { return b.contains(p); });
    C0(Box3d, x); C0(Box3d, y); C0(Box3d, z); C0(Box3d, isEmpty); C0(Box3d, isFull); C0(Box3d, getCenter); C0(Box3d, getWidth); C0(Box3d, getHeight); C0(Box3d, getDepth);
    C1(Box3d, contains, Vector3d); C1(Box3d, contains, Box3d); C3(Box3d, contains, double, double, double, "x,y,z");
    C1(Box3d, isDisjointFrom, Vector3d); C1(Box3d, isDisjointFrom, Box3d); C1(Box3d, intersects, Vector3d); C1(Box3d, intersects, Box3d); C1(Box3d, isWithin, Vector3d); C1(Box3d, isWithin, Box3d);
    M1(Box3d, clipTo, Vector3d); M1(Box3d, clipTo, Box3d); C1(Box3d, clippedTo, Vector3d); C1(Box3d, clippedTo, Box3d);
    M1(Box3d, expandTo, Vector3d); M1(Box3d, expandTo, Box3d); C1(Box3d, expandedTo, Vector3d); C1(Box3d, expandedTo, Box3d);
    M1(Box3d, dilateBy, double, "radius"); M3(Box3d, dilateBy, double, double, double, "width,height,depth"); C1(Box3d, dilatedBy, double, "radius"); C3(Box3d, dilatedBy, double, double, double, "width,height,depth");
    M1(Box3d, erodeBy, double, "radius"); M3(Box3d, erodeBy, double, double, double, "width,height,depth"); C1(Box3d, erodedBy, double, "radius"); C3(Box3d, erodedBy, double, double, double, "width,height,depth");
    C1(Box3d, relate, Vector3d); C1(Box3d, relate, Box3d);

    // Circle
    S0(Circle, empty); S0(Circle, full); S1(Circle, squaredChordLengthFor, Angle, "openingAngle"); S1(Circle, openingAngleFor, double, "squaredChordLength");
    K0(Circle); K1(Circle, UnitVector3d, "center"); K2(Circle, UnitVector3d, Angle, "center,angle"); K2(Circle, UnitVector3d, double, "center,squaredChordLength"); K1(Circle, Circle, "circle");
    EQ(Circle, Circle);
    op("Circle.__contains__", +[](Circle const & b, Circle const & p) { return b.contains(p); });
    op("Circle.__contains__", +[](Circle const & b, UnitVector3d const & p) { return b.contains(p); });
    C0(Circle, isEmpty); C0(Circle, isFull); C0(Circle, getCenter); C0(Circle, getSquaredChordLength); C0(Circle, getOpeningAngle); C0(Circle, getArea);
    C1(Circle, contains, Circle); C1(Circle, contains, UnitVector3d); C1(Circle, isDisjointFrom, UnitVector3d); C1(Circle, isDisjointFrom, Circle);
    C1(Circle, intersects, UnitVector3d); C1(Circle, intersects, Circle); C1(Circle, isWithin, UnitVector3d); C1(Circle, isWithin, Circle);
    M1(Circle, clipTo, UnitVector3d); M1(Circle, clipTo, Circle); C1(Circle, clippedTo, UnitVector3d); C1(Circle, clippedTo, Circle);
    M1(Circle, expandTo, UnitVector3d); M1(Circle, expandTo, Circle); C1(Circle, expandedTo, UnitVector3d); C1(Circle, expandedTo, Circle);
    M1(Circle, dilateBy, Angle, "radius"); C1(Circle, dilatedBy, Angle, "radius"); M1(Circle, erodeBy, Angle, "radius"); C1(Circle, erodedBy, Angle, "radius");
    M0(Circle, complement); C0(Circle, complemented);

    // Ellipse
    S0(Ellipse, empty); S0(Ellipse, full);
    K0(Ellipse); K1(Ellipse, Circle, "circle"); K1(Ellipse, UnitVector3d, "center"); K2(Ellipse, UnitVector3d, Angle, "center,angle");
    K3(Ellipse, UnitVector3d, UnitVector3d, Angle, "focus1,focus2,alpha"); K4(Ellipse, UnitVector3d, Angle, Angle, Angle, "center,alpha,beta,orientation"); K1(Ellipse, Ellipse, "ellipse");
    EQ(Ellipse, Ellipse); C0(Ellipse, isEmpty); C0(Ellipse, isFull); C0(Ellipse, isGreatCircle); C0(Ellipse, isCircle); C0(Ellipse, getTransformMatrix); C0(Ellipse, getCenter);
    C0(Ellipse, getF1); C0(Ellipse, getF2); C0(Ellipse, getAlpha); C0(Ellipse, getBeta); C0(Ellipse, getGamma); M0(Ellipse, complement); C0(Ellipse, complemented);

    // ConvexPolygon
    typedef std::vector<UnitVector3d> Points;
    S1(ConvexPolygon, convexHull, Points, "points"); K1(ConvexPolygon, Points, "points"); K1(ConvexPolygon, ConvexPolygon, "convexPolygon");
    EQ(ConvexPolygon, ConvexPolygon); C0(ConvexPolygon, getVertices); C0(ConvexPolygon, getCentroid);
    C1(ConvexPolygon, contains, UnitVector3d); C1(ConvexPolygon, contains, Region); C1(ConvexPolygon, isDisjointFrom, Region); C1(ConvexPolygon, intersects, Region); C1(ConvexPolygon, isWithin, Region);

    // Compound regions
    K2(UnionRegion, Region, Region); K2(IntersectionRegion, Region, Region);
    op("CompoundRegion.cloneOperand", +[](CompoundRegion const & s, bool const & b) { return s.getOperand(b).clone(); });

    // Region
#define REGION(T) C0(T, clone); C0(T, getBoundingBox); C0(T, getBoundingBox3d); C0(T, getBoundingCircle); C1(T, contains, UnitVector3d); \
    C3(T, contains, double, double, double, "x,y,z"); C2(T, contains, double, double, "lon,lat"); \
    op(#T ".__contains__", +[](T const & b, UnitVector3d const & p) { return b.contains(p); }); \
    op(#T ".relate", +[](T const & b, Region const & p) { return static_cast<Region const &>(b).relate(p); }, "region"); \
    op(#T ".encode", +[](T const & b) { return Bytes_{b.encode()}; }); \
    op(#T "::decode", +[](Bytes_ const & b) { return Region::decode(b.b); }, "bytes"); \
    op(#T "::getRegions", +[](T const & b) { return Region::getRegions(b); }, "region")
    REGION(Region); REGION(Box); REGION(Circle); REGION(Ellipse); REGION(ConvexPolygon); REGION(UnionRegion); REGION(IntersectionRegion);

    // RangeSet
    K0(RangeSet); K1(RangeSet, u64, "integer"); K2(RangeSet, u64, u64, "first,last"); K1(RangeSet, RangeSet, "rangeSet");
    EQ(RangeSet, RangeSet);
    M1(RangeSet, insert, u64, "integer"); M2(RangeSet, insert, u64, u64, "first,last"); M1(RangeSet, erase, u64, "integer"); M2(RangeSet, erase, u64, u64, "first,last");
    M0(RangeSet, complement); C0(RangeSet, complemented); C1(RangeSet, intersection, RangeSet, "rangeSet");
    op("RangeSet.union", +[](RangeSet const & a, RangeSet const & b) { return a.join(b); }, "rangeSet");
    C1(RangeSet, difference, RangeSet, "rangeSet"); C1(RangeSet, symmetricDifference, RangeSet, "rangeSet");
    op("RangeSet.__invert__", +[](RangeSet const & a) { return ~a; });
    B1(RangeSet, __and__, RangeSet, &); B1(RangeSet, __or__, RangeSet, |); B1(RangeSet, __sub__, RangeSet, -); B1(RangeSet, __xor__, RangeSet, ^);
    I1(RangeSet, __iand__, RangeSet, &=); I1(RangeSet, __ior__, RangeSet, |=); I1(RangeSet, __isub__, RangeSet, -=); I1(RangeSet, __ixor__, RangeSet, ^=);
    op("RangeSet.__len__", +[](RangeSet const & a) -> u64 { return a.size(); });
    op("RangeSet.size", +[](RangeSet const & a) -> u64 { return a.size(); });
#define RSQ(m) C1(RangeSet, m, u64, "integer"); C2(RangeSet, m, u64, u64, "first,last"); C1(RangeSet, m, RangeSet, "rangeSet")
    RSQ(intersects); RSQ(contains); RSQ(isWithin); RSQ(isDisjointFrom);
    op("RangeSet.__contains__", +[](RangeSet const & a, u64 const & b) { return a.contains(b); });
    op("RangeSet.__contains__", +[](RangeSet const & a, RangeSet const & b) { return a.contains(b); });
    M1(RangeSet, simplify, std::uint32_t, "n"); C1(RangeSet, simplified, std::uint32_t, "n"); M1(RangeSet, scale, u64, "factor"); C1(RangeSet, scaled, u64, "factor");
    M0(RangeSet, fill); M0(RangeSet, clear); C0(RangeSet, empty); C0(RangeSet, full); C0(RangeSet, cardinality); C0(RangeSet, isValid);

    // Pixelizations
    pixelization<HtmPixelization>("HtmPixelization");
    op("HtmPixelization::level", +[](u64 const & i) -> std::int32_t { return HtmPixelization::level(i); }, "i");
    S1(HtmPixelization, triangle, u64, "i"); S1(HtmPixelization, asString, u64, "i");
    pixelization<Q3cPixelization>("Q3cPixelization");
    C1(Q3cPixelization, quad, u64); C1(Q3cPixelization, neighborhood, u64);
    pixelization<Mq3cPixelization>("Mq3cPixelization");
    op("Mq3cPixelization::level", +[](u64 const & i) -> std::int32_t { return Mq3cPixelization::level(i); });
    S1(Mq3cPixelization, quad, u64); S1(Mq3cPixelization, neighborhood, u64); S1(Mq3cPixelization, asString, u64);

    // Chunker
    K2(Chunker, std::int32_t, std::int32_t, "numStripes,numSubStripesPerStripe"); EQ(Chunker, Chunker);
    op("Chunker#numStripes", +[](Chunker const & c) { return c.getNumStripes(); });
    op("Chunker#numSubStripesPerStripe", +[](Chunker const & c) { return c.getNumSubStripesPerStripe(); });
    C1(Chunker, getChunksIntersecting, Region, "region"); C1(Chunker, getSubChunksIntersecting, Region, "region"); C0(Chunker, getAllChunks); C1(Chunker, getAllSubChunks, std::int32_t, "chunkId");
    C2(Chunker, getChunkBoundingBox, std::int32_t, std::int32_t, "stripe,chunk"); C2(Chunker, getSubChunkBoundingBox, std::int32_t, std::int32_t, "subStripe,subChunk");
    op("Chunker.getStripe", +[](Chunker const & c, std::int32_t const & i) -> std::int32_t { return c.getStripe(i); }, "chunkId");
    op("Chunker.getChunk", +[](Chunker const & c, std::int32_t const & i, std::int32_t const & s) -> std::int32_t { return c.getChunk(i, s); }, "chunkId,stripe");

    // Functions
    op("!log2", +[](u64 const & x) -> std::uint8_t { return static_cast<std::uint8_t>(log2(x)); });
    op("!mortonIndex", +[](std::uint32_t const & x, std::uint32_t const & y) { return mortonIndex(x, y); }, "x,y");
    op("!mortonIndexInverse", +[](u64 const & z) { return mortonIndexInverse(z); }, "z");
    op("!hilbertIndex", +[](std::uint32_t const & x, std::uint32_t const & y, Order const & m) { return hilbertIndex(x, y, m.m); }, "x,y,m");
    op("!hilbertIndexInverse", +[](u64 const & h, Order const & m) { return hilbertIndexInverse(h, m.m); }, "h,m");
    op("!hilbertToMorton", +[](u64 const & h, Order const & m) { return hilbertToMorton(h, m.m); }, "h,m");
    op("!mortonToHilbert", +[](u64 const & h, Order const & m) { return mortonToHilbert(h, m.m); }, "z,m");
    F3(orientation, UnitVector3d, UnitVector3d, UnitVector3d, "a,b,c"); F3(orientationExact, Vector3d, Vector3d, Vector3d, "a,b,c");
    F2(orientationX, UnitVector3d, UnitVector3d, "b,c"); F2(orientationY, UnitVector3d, UnitVector3d, "b,c"); F2(orientationZ, UnitVector3d, UnitVector3d, "b,c");
    F1(invert, Relationship, "relationship");
    op("#DISJOINT", +[]() { return DISJOINT; }); op("#INTERSECTS", +[]() { return INTERSECTS; }); op("#CONTAINS", +[]() { return CONTAINS; }); op("#WITHIN", +[]() { return WITHIN; });
    F4(getMinSquaredChordLength, Vector3d, Vector3d, Vector3d, Vector3d, "v,a,b,n"); F4(getMaxSquaredChordLength, Vector3d, Vector3d, Vector3d, Vector3d, "v,a,b,n");
    F2(getMinAngleToCircle, Angle, Angle, "x,c"); F2(getMaxAngleToCircle, Angle, Angle, "x,c"); F3(getWeightedCentroid, UnitVector3d, UnitVector3d, UnitVector3d, "vector0,vector1,vector2");

    // Objects of each type, for serialisation checks.
#define MAKE(T) op("make", +[](T const & t) { (void)t; return true; })
    MAKE(Angle); MAKE(NormalizedAngle); MAKE(LonLat); MAKE(Vector3d); MAKE(UnitVector3d); MAKE(Matrix3d); MAKE(Interval1d); MAKE(AngleInterval); MAKE(NormalizedAngleInterval);
    MAKE(Box3d); MAKE(Box); MAKE(Circle); MAKE(Ellipse); MAKE(ConvexPolygon); MAKE(UnionRegion); MAKE(IntersectionRegion); MAKE(RangeSet); MAKE(HtmPixelization);
    MAKE(Q3cPixelization); MAKE(Mq3cPixelization); MAKE(Chunker);
    // A region and points to test, with the expected answers.
#define POINTS(T) op("points", +[](T const & t, UnitVector3d const & a, UnitVector3d const & b, UnitVector3d const & c, UnitVector3d const & d, double const & x, double const & y, double const & z) { \
        std::vector<bool> r; std::uint32_t m = 0; int k = 0; auto add = [&](bool v) { m |= static_cast<std::uint32_t>(v) << k++; }; \
        double X[5] = {a.x(), b.x(), c.x(), d.x(), x}, Y[5] = {a.y(), b.y(), c.y(), d.y(), y}, Z[5] = {a.z(), b.z(), c.z(), d.z(), z}; \
        for (int i = 0; i < 5; ++i) { add(t.contains(X[i], Y[i], Z[i])); } return m; })
    POINTS(Region); POINTS(Box); POINTS(Circle); POINTS(Ellipse); POINTS(ConvexPolygon); POINTS(UnionRegion); POINTS(IntersectionRegion); POINTS(Box3d);
}

int main(int argc, char ** argv) {
    ::prctl(PR_SET_PDEATHSIG, SIGKILL);
    define();
    if (argc > 1 && std::string(argv[1]) == "--sigs") {
        for (auto const & o : ops()) std::printf("%s %s %s %s %s\n", o.name.c_str(), o.ret.c_str(), o.args.empty() ? "-" : o.args.c_str(), o.kind.c_str(), o.kw.empty() ? "-" : o.kw.c_str());
        return 0;
    }
    std::uint64_t q[2];
    while (std::fread(q, 8, 2, stdin) == 2) {
        Op const & o = ops().at(q[0]);
        G g(q[1]);
        std::string const & n = o.name;
        g.small = n.find("envelope") != n.npos || n.find("interior") != n.npos || n.find("ChunksIntersecting") != n.npos || n.find("getAllChunks") != n.npos;
        Out r = o.run(g);
        std::uint64_t len = r.size();
        std::fwrite(&len, 8, 1, stdout);
        std::fwrite(r.data(), 1, r.size(), stdout);
        std::fflush(stdout);
    }
    return 0;
}
