// C23: the same inputs given to differently configured builds of the library. The workload generates inputs and
// evaluates them here, and sends them to servers that are this same program linked with the other builds.
#define VH_NO_MAIN
#include "vh.h"
#include "gen.h"
#include "spec.h"
#include "pix.h"
#include "codecgen.h"
#include "lsst/sphgeom/BigInteger.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/codec.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
#include <sys/wait.h>
using namespace vh;

namespace {

struct Input {
    std::vector<double> d;
    std::vector<std::uint64_t> u;
    std::vector<Bytes> b;
};

// What a build answers. Exact values must agree in every bit, real ones to rounding.
struct Answer {
    struct Item { std::uint64_t v; std::uint32_t real; std::uint32_t pad; double scale; };
    std::vector<Item> items;
    std::vector<char const *> names;
    void exact(char const * n, std::uint64_t v) { items.push_back({v, 0, 0, 0}); names.push_back(n); }
    void real(char const * n, double d, double scale = 1) { items.push_back({bits(d == 0 ? 0.0 : d), 1, 0, scale}); names.push_back(n); }
    void bytes(char const * n, Bytes const & b) { exact(n, hashBytes(b.data(), b.size())); }
    void text(char const * n, std::string const & s) { exact(n, hashBytes(s.data(), s.size())); }
    void set(char const * n, RangeSet const & s) {
        std::uint64_t h = 7;
        for (auto const & t : s) h = mix(h ^ mix(std::get<0>(t)) ^ std::get<1>(t));
        exact(n, h); exact(n, s.size());
    }
    template <typename T> void list(char const * n, std::vector<T> const & v) { std::uint64_t h = v.size(); for (auto x : v) h = mix(h ^ static_cast<std::uint64_t>(x)); exact(n, h); }
    void region(char const * n, Region const & r) {
        if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) {
            exact(n, p->getVertices().size());
            for (auto const & v : p->getVertices()) { real(n, v.x()); real(n, v.y()); real(n, v.z()); }
        } else if (auto k = dynamic_cast<Circle const *>(&r)) {
            exact(n, k->isEmpty()); exact(n, k->isFull());
            if (!k->isEmpty()) { real(n, k->getCenter().x()); real(n, k->getCenter().y()); real(n, k->getCenter().z()); real(n, k->getSquaredChordLength()); }
        } else if (auto b = dynamic_cast<Box const *>(&r)) {
            exact(n, b->isEmpty()); exact(n, b->isFull());
            if (!b->isEmpty()) { real(n, b->getLon().getA().asRadians(), 4); real(n, b->getLon().getB().asRadians(), 4); real(n, b->getLat().getA().asRadians()); real(n, b->getLat().getB().asRadians()); }
        }
    }
    template <typename F> void guarded(char const * n, F const & f) { try { f(); exact(n, 1); } catch (std::exception const & e) { exact(n, hashBytes(typeid(e).name(), std::strlen(typeid(e).name()))); } }
};

UnitVector3d unitOf(Input const & in, size_t k) { return UnitVector3d::fromNormalized(in.d.at(k), in.d.at(k + 1), in.d.at(k + 2)); }
void put(Input & in, UnitVector3d const & v) { in.d.push_back(v.x()); in.d.push_back(v.y()); in.d.push_back(v.z()); }

// ------------------------------------------------------------- workloads

struct Work { char const * name; std::uint64_t cases; void (*make)(Rng &, Input &); void (*eval)(Input const &, Answer &); };

void makeVectors(Rng & r, Input & in) {
    for (int i = 0; i < 6; ++i) in.d.push_back(r.chance(.3) ? tiny(r) : r.chance(.5) ? finiteDouble(r) : r.uni(-1, 1));
    if (r.chance(.3)) { int k = r.range(0, 2); in.d[static_cast<size_t>(k)] = in.d[static_cast<size_t>((k + 1) % 3)] * r.pick({1.0, -1.0}); }
    put(in, anyUnit(r));
    put(in, anyUnit(r));
}
void evalVectors(Input const & in, Answer & a) {
    Vector3d v(in.d[0], in.d[1], in.d[2]), w(in.d[3], in.d[4], in.d[5]);
    a.guarded("normalize", [&] { Vector3d x = v; double n = x.normalize(); a.real("norm", n, n); a.real("unit x", x.x()); a.real("unit y", x.y()); a.real("unit z", x.z()); });
    a.guarded("UnitVector3d", [&] { UnitVector3d x(v.x(), v.y(), v.z()); a.real("u x", x.x()); a.real("u y", x.y()); a.real("u z", x.z()); });
    UnitVector3d p = unitOf(in, 6), q = unitOf(in, 9);
    a.real("dot", p.dot(q));
    Vector3d c = p.robustCross(q);
    a.real("cross x", c.x()); a.real("cross y", c.y()); a.real("cross z", c.z());
    UnitVector3d o = UnitVector3d::orthogonalTo(p);
    a.real("orth x", o.x()); a.real("orth y", o.y()); a.real("orth z", o.z());
    NormalizedAngle s(p, q);
    a.real("angle", s.asRadians(), 4);
    LonLat l(p);
    a.real("lon", l.getLon().asRadians(), 8); a.real("lat", l.getLat().asRadians());
    UnitVector3d back(l);
    a.real("back x", back.x()); a.real("back y", back.y()); a.real("back z", back.z());
    UnitVector3d rot = p.rotatedAround(q, Angle(in.d[0] > -10 && in.d[0] < 10 ? in.d[0] : 1));
    a.real("rot x", rot.x()); a.real("rot y", rot.y()); a.real("rot z", rot.z());
    (void)w;
}

void makeCurves(Rng & r, Input & in) {
    for (int i = 0; i < 4; ++i) in.u.push_back(r.chance(.3) ? (std::uint64_t(1) << r.below(64)) - r.below(3) : r.u64() >> r.below(64));
    in.u.push_back(r.below(33));
}
void evalCurves(Input const & in, Answer & a) {
    std::uint32_t x = static_cast<std::uint32_t>(in.u[0]), y = static_cast<std::uint32_t>(in.u[1]);
    int m = static_cast<int>(in.u[4]);
    std::uint64_t mask = m == 32 ? ~std::uint64_t(0) : (std::uint64_t(1) << (2 * m)) - 1;
    std::uint32_t cm = m == 32 ? ~0u : (1u << m) - 1;
    a.exact("mortonIndex", mortonIndex(x, y));
    auto t = mortonIndexInverse(in.u[2]);
    a.exact("mortonIndexInverse", std::get<0>(t)); a.exact("mortonIndexInverse", std::get<1>(t));
    a.exact("mortonToHilbert", mortonToHilbert(in.u[2] & mask, m));
    a.exact("hilbertToMorton", hilbertToMorton(in.u[2] & mask, m));
    a.exact("hilbertIndex", hilbertIndex(x & cm, y & cm, m));
    auto h = hilbertIndexInverse(in.u[3] & mask, m);
    a.exact("hilbertIndexInverse", std::get<0>(h)); a.exact("hilbertIndexInverse", std::get<1>(h));
    if (in.u[3]) a.exact("log2", lsst::sphgeom::log2(in.u[3]));
    if (static_cast<std::uint32_t>(in.u[3])) a.exact("log2-32", lsst::sphgeom::log2(static_cast<std::uint32_t>(in.u[3])));
    Bytes b;
    encodeU64(in.u[2], b);
    encodeDouble(fromBits(in.u[3]), b);
    a.bytes("encode", b);
    a.exact("decodeU64", decodeU64(b.data()));
    double d = decodeDouble(b.data() + 8);
    a.exact("decodeDouble", std::isnan(d) ? 1 : bits(d));
}

void makeIndex(Rng & r, Input & in) {
    Pix p = anyPix(r);
    in.u = {std::uint64_t(p.kind), std::uint64_t(p.level), p.randomIndex(r), r.u64() >> r.below(64)};
    for (int i = 0; i < 3; ++i) put(in, pixPoint(r, p));
    put(in, specialUnit(r));
}
void evalIndex(Input const & in, Answer & a) {
    Pix p(static_cast<int>(in.u[0]), static_cast<int>(in.u[1]));
    for (size_t k = 0; k < in.d.size(); k += 3) a.exact("index", p.p->index(unitOf(in, k)));
    for (std::uint64_t i : {in.u[2], in.u[3]}) {
        a.guarded("pixel", [&] { a.region("pixel", *p.p->pixel(i)); });
        a.guarded("toString", [&] { a.text("toString", p.p->toString(i)); });
        if (p.kind) a.guarded("neighborhood", [&] { a.list("neighborhood", p.neighborhood(i)); });
        a.exact("htm level", static_cast<std::uint64_t>(HtmPixelization::level(i)));
        a.exact("mq3c level", static_cast<std::uint64_t>(Mq3cPixelization::level(i)));
    }
    if (p.kind) {
        // The pixel's own corners and centre, as this build computes them, must be where the others say they are.
        auto v = p.vertices(in.u[2]);
        V3 m;
        for (V3 x : v) m = m + x.unit();
        a.exact("index of the centre", p.p->index(toUnit(m.unit())));
    }
}

void makeRegionPair(Rng & r, Input & in) {
    RegionPtr x = codecRegion(r), y = r.chance(.6) ? relatedRegion(r, *x, r.range(0, NKINDS - 1)) : codecRegion(r);
    in.b = {x->encode(), y->encode(), mutate(r, x->encode())};
    for (int i = 0; i < 3; ++i) { auto t = testPoints(r, *x, 1); put(in, toUnit(r.pick(t).unit())); }
    put(in, anyUnit(r));
}
void evalRegionPair(Input const & in, Answer & a) {
    RegionPtr x = Region::decode(in.b[0]), y = Region::decode(in.b[1]);
    a.bytes("encode", x->encode());
    a.bytes("encode", y->encode());
    a.exact("relate", x->relate(*y).to_ulong());
    a.exact("relate", y->relate(*x).to_ulong());
    for (size_t k = 0; k < in.d.size(); k += 3) { a.exact("contains", x->contains(unitOf(in, k))); a.exact("contains", y->contains(unitOf(in, k))); }
    a.region("box", x->getBoundingBox());
    a.region("circle", x->getBoundingCircle());
    Box3d b = x->getBoundingBox3d();
    if (!b.isEmpty()) for (auto i : {b.x(), b.y(), b.z()}) { a.real("box3d", i.getA()); a.real("box3d", i.getB()); }
    a.guarded("decode", [&] { a.bytes("re-encode", Region::decode(in.b[2])->encode()); });
}

void makeSearch(Rng & r, Input & in) {
    Pix p = anyPix(r, 12);
    int kind = r.range(0, NKINDS - 1);
    double size = r.logUni(1e-5, 1);
    RegionPtr x = makeRegion(r, kind, anyUnit(r), size);
    int lmax = std::max(0, static_cast<int>(std::floor(std::log2(25 / size))));
    if (kind >= UNION) lmax = std::min(lmax, 4);
    in.u = {std::uint64_t(p.kind), std::uint64_t(std::min(p.level, lmax)), r.pick({0ul, 1ul, 5ul, 40ul})};
    in.b = {x->encode()};
}
void evalSearch(Input const & in, Answer & a) {
    Pix p(static_cast<int>(in.u[0]), static_cast<int>(in.u[1]));
    RegionPtr x = Region::decode(in.b[0]);
    a.set("envelope", p.p->envelope(*x, in.u[2]));
    a.set("interior", p.p->interior(*x, in.u[2]));
}

void makeChunks(Rng & r, Input & in) {
    in.u = {r.below(30) + 1, r.below(8) + 1};
    in.b = {makeRegion(r, r.range(0, NKINDS - 1), anyUnit(r), r.logUni(1e-4, 1.5))->encode()};
}
void evalChunks(Input const & in, Answer & a) {
    Chunker k(static_cast<std::int32_t>(in.u[0]), static_cast<std::int32_t>(in.u[1]));
    RegionPtr x = Region::decode(in.b[0]);
    a.list("getAllChunks", k.getAllChunks());
    a.list("getChunksIntersecting", k.getChunksIntersecting(*x));
    for (auto const & s : k.getSubChunksIntersecting(*x)) { a.exact("sub-chunks of", static_cast<std::uint64_t>(s.chunkId)); a.list("sub-chunks", s.subChunkIds); }
}

void makeOrient(Rng & r, Input & in) {
    UnitVector3d p = anyUnit(r), q = r.chance(.5) ? nearUnit(r, p) : anyUnit(r);
    put(in, p);
    put(in, q);
    LD f = r.uni(-2, 2);
    V3 m = V3(p) + V3(q) * f;
    put(in, r.chance(.5) || !(m.norm() > 1e-3L) ? (r.chance(.5) ? nearUnit(r, p) : anyUnit(r)) : toUnit(m.unit()));
    for (int i = 0; i < 3; ++i) in.u.push_back(r.u64() >> r.below(64));
}
void evalOrient(Input const & in, Answer & a) {
    UnitVector3d p = unitOf(in, 0), q = unitOf(in, 3), s = unitOf(in, 6);
    a.exact("orientation", static_cast<std::uint64_t>(orientation(p, q, s)));
    a.exact("orientation", static_cast<std::uint64_t>(orientation(s, q, p)));
    a.exact("orientationExact", static_cast<std::uint64_t>(orientationExact(p, q, s)));
    a.exact("orientationX", static_cast<std::uint64_t>(orientationX(p, q)));
    a.exact("orientationY", static_cast<std::uint64_t>(orientationY(p, q)));
    a.exact("orientationZ", static_cast<std::uint64_t>(orientationZ(p, q)));
    std::uint32_t dx[16], dy[16], dz[40];
    BigInteger x(dx, 16), y(dy, 16), z(dz, 40);
    x.setTo(in.u[0]); y.setTo(in.u[1]);
    for (int i = 0; i < 3; ++i) {
        x.multiplyPow2(static_cast<unsigned>(in.u[2] >> (8 * i)) % 70);
        x.subtract(y);
        z = x; z.multiply(y);
        a.exact("product sign", static_cast<std::uint64_t>(z.getSign()));
        a.exact("product size", z.getSize());
        a.exact("product", hashBytes(z.getDigits(), 4 * z.getSize()));
    }
}

void makeHulls(Rng & r, Input & in) {
    UnitVector3d ctr = anyUnit(r);
    LD size = r.logUni(1e-7, 2);
    int n = r.range(1, 14);
    for (int i = 0; i < n; ++i) put(in, r.chance(.8) ? toUnit(offset(r, V3(ctr), size * r.uni())) : anyUnit(r));
}
void evalHulls(Input const & in, Answer & a) {
    std::vector<UnitVector3d> v;
    for (size_t k = 0; k < in.d.size(); k += 3) v.push_back(unitOf(in, k));
    a.guarded("hull", [&] {
        ConvexPolygon p(v);
        a.bytes("hull vertices", p.encode());
        UnitVector3d g = p.getCentroid();
        // the centroid of a sliver is ill conditioned
        if (p.getBoundingCircle().getOpeningAngle().asRadians() > 0.01 && p.getVertices().size() > 4) { a.real("centroid", g.x(), 1e4); a.real("centroid", g.y(), 1e4); a.real("centroid", g.z(), 1e4); }
    });
}

Work const works[] = {
    {"vectors", 60000, makeVectors, evalVectors},
    {"curves", 80000, makeCurves, evalCurves},
    {"index", 60000, makeIndex, evalIndex},
    {"regions", 12000, makeRegionPair, evalRegionPair},
    {"search", 3000, makeSearch, evalSearch},
    {"chunks", 1500, makeChunks, evalChunks},
    {"orient", 40000, makeOrient, evalOrient},
    {"hulls", 20000, makeHulls, evalHulls},
};

// ------------------------------------------------------------- protocol

template <typename T> void putV(std::string & s, std::vector<T> const & v) {
    std::uint64_t n = v.size();
    s.append(reinterpret_cast<char const *>(&n), 8);
    s.append(reinterpret_cast<char const *>(v.data()), n * sizeof(T));
}
bool readAll(int fd, void * p, size_t n) {
    auto q = static_cast<char *>(p);
    while (n) { ssize_t k = ::read(fd, q, n); if (k <= 0) return false; q += k; n -= static_cast<size_t>(k); }
    return true;
}
bool writeAll(int fd, void const * p, size_t n) {
    auto q = static_cast<char const *>(p);
    while (n) { ssize_t k = ::write(fd, q, n); if (k <= 0) return false; q += k; n -= static_cast<size_t>(k); }
    return true;
}
template <typename T> bool getV(int fd, std::vector<T> & v) {
    std::uint64_t n;
    if (!readAll(fd, &n, 8)) return false;
    v.resize(n);
    return readAll(fd, v.data(), n * sizeof(T));
}

int serve() {
    for (;;) {
        std::uint64_t w, nb;
        if (!readAll(0, &w, 8)) return 0;
        Input in;
        if (!getV(0, in.d) || !getV(0, in.u) || !readAll(0, &nb, 8)) return 1;
        in.b.resize(nb);
        for (auto & b : in.b) if (!getV(0, b)) return 1;
        Answer a;
        try { works[w].eval(in, a); } catch (std::exception const & e) { a.exact("exception", hashBytes(typeid(e).name(), std::strlen(typeid(e).name()))); }
        std::string s;
        putV(s, a.items);
        if (!writeAll(1, s.data(), s.size())) return 1;
    }
}

struct Server {
    std::string name;
    int in = -1, out = -1;
    pid_t pid = 0;
    explicit Server(std::string const & n, char const * path) : name(n) {
        int a[2], b[2];
        if (::pipe(a) || ::pipe(b)) std::abort();
        pid = ::fork();
        if (pid == 0) {
            ::prctl(PR_SET_PDEATHSIG, SIGKILL);
            ::dup2(a[0], 0); ::dup2(b[1], 1);
            for (int fd : {a[0], a[1], b[0], b[1]}) ::close(fd);
            ::execl(path, path, "--serve", static_cast<char *>(nullptr));
            _exit(99);
        }
        ::close(a[0]); ::close(b[1]);
        in = a[1]; out = b[0];
    }
    bool ask(std::string const & q, Answer & a) { return writeAll(in, q.data(), q.size()) && getV(out, a.items); }
};

std::vector<Server> & servers() {
    static std::vector<Server> v = [] {
        std::vector<Server> s;
        ::signal(SIGPIPE, SIG_IGN);
        for (char const * n : {"PORTABLE", "NOSIMD", "NOOPT"}) if (char const * p = std::getenv((std::string("VH_AUX_C23_") + n).c_str())) s.emplace_back(n, p);
        return s;
    }();
    return v;
}

std::string show(Input const & in) {
    std::string s;
    for (double d : in.d) s += str(d) + " ";
    s += "| ";
    for (auto u : in.u) { char t[32]; std::snprintf(t, sizeof t, "%#" PRIx64 " ", u); s += t; }
    for (auto const & b : in.b) s += "| " + hexOf(b);
    return s;
}

void compare(vh::Ctx & c, std::uint64_t w) {
    if (servers().empty()) { std::fprintf(stderr, "no servers\n"); std::exit(3); }
    Input in;
    works[w].make(c.rng, in);
    std::string q;
    q.append(reinterpret_cast<char const *>(&w), 8);
    putV(q, in.d);
    putV(q, in.u);
    std::uint64_t nb = in.b.size();
    q.append(reinterpret_cast<char const *>(&nb), 8);
    for (auto const & b : in.b) putV(q, b);
    Answer mine;
    try { works[w].eval(in, mine); } catch (std::exception const & e) { mine.exact("exception", hashBytes(typeid(e).name(), std::strlen(typeid(e).name()))); }
    for (auto & s : servers()) {
        Answer a;
        if (!s.ask(q, a)) {
            c.fail("died:" + s.name, s.name + " build ended on " + works[w].name + " input " + show(in));
            std::exit(0 * std::fprintf(stderr, "server ended\n") + 5);
        }
        c.eval(hashBytes(q.data(), q.size()));
        if (a.items.size() != mine.items.size()) { c.fail("shape:" + std::string(works[w].name) + ":" + s.name, "different numbers of answers for " + show(in)); continue; }
        bool all = true;
        for (size_t i = 0; i < a.items.size(); ++i) {
            auto const & x = mine.items[i];
            auto const & y = a.items[i];
            c.count("answers_compared");
            if (x.v == y.v) continue;
            all = false;
            bool ok = false;
            if (x.real) {
                double p = fromBits(x.v), r = fromBits(y.v);
                ok = (std::isnan(p) && std::isnan(r)) || p == r || std::fabs(p - r) <= 8e-16 * x.scale;
                c.count("rounded_differently");
            }
            if (!ok) { c.fail("differs:" + std::string(mine.names[i]) + ":" + s.name, std::string(works[w].name) + ": " + mine.names[i] + " is " + (x.real ? str(fromBits(x.v)) : toStr(x.v)) + " in the default build and " + (x.real ? str(fromBits(y.v)) : toStr(y.v)) + " in the " + s.name + " build for " + show(in)); break; }
        }
        if (all) c.count("identical_cases");
    }
    c.sample([&] { return std::string(works[w].name) + " " + show(in).substr(0, 300); });
}

}  // namespace

#define WORK(i, name, cases) SECTION(name, cases) { compare(c, i); }
WORK(0, vectors, 60000)
WORK(1, curves, 80000)
WORK(2, index, 60000)
WORK(3, regions, 12000)
WORK(4, search, 3000)
WORK(5, chunks, 1500)
WORK(6, orient, 40000)
WORK(7, hulls, 20000)

int main(int argc, char ** argv) {
    if (argc == 2 && std::string(argv[1]) == "--serve") return serve();
    return vh::runMain(argc, argv);
}
