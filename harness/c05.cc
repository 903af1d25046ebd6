// C05: BigInteger against boost::multiprecision, including operand aliasing, capacity limits and histories.
#include "vh.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <memory>
#include "lsst/sphgeom/BigInteger.h"

using boost::multiprecision::cpp_int;
using lsst::sphgeom::BigInteger;
using namespace vh;

namespace {

constexpr std::uint32_t CANARY = 0xdeadbeefu;

// A BigInteger with exactly sized heap storage (so that ASan sees overruns) and its expected value.
struct Num {
    std::unique_ptr<std::uint32_t[]> digits;
    unsigned capacity;
    BigInteger b;
    cpp_int v;
    explicit Num(unsigned cap) : digits(new std::uint32_t[cap]), capacity(cap), b(digits.get(), cap) {
        for (unsigned i = 0; i < cap; ++i) digits[i] = CANARY;
    }
};

cpp_int valueOf(BigInteger const & b) {
    cpp_int v = 0;
    for (unsigned i = b.getSize(); i-- > 0;) { v <<= 32; v |= b.getDigits()[i]; }
    return b.getSign() < 0 ? cpp_int(-v) : v;
}

unsigned digitsOf(cpp_int v) { if (v < 0) v = -v; unsigned n = 0; while (v != 0) { v >>= 32; ++n; } return n; }

std::string show(cpp_int const & v) {
    return v < 0 ? "-" + cpp_int(-v).str(0, std::ios_base::hex | std::ios_base::showbase) : v.str(0, std::ios_base::hex | std::ios_base::showbase);
}

std::uint64_t hashOf(cpp_int const & v) { std::string s = show(v); return hashBytes(s.data(), s.size()); }

void verify(Ctx & c, Num const & n, char const * op, std::function<std::string()> const & what) {
    BigInteger const & b = n.b;
    c.eval();
    std::string problem;
    if (b.getCapacity() != n.capacity || b.getDigits() != n.digits.get()) problem = "storage changed";
    else if (b.getSize() > n.capacity) problem = "size exceeds the capacity";
    else if (b.getSize() > 0 && b.getDigits()[b.getSize() - 1] == 0) problem = "leading zero digit";
    else if ((b.getSize() == 0) != (b.getSign() == 0)) problem = "sign and size disagree";
    else if (b.getSign() < -1 || b.getSign() > 1) problem = "sign is not -1, 0 or 1";
    else if (valueOf(b) != n.v) problem = "wrong value " + show(valueOf(b)) + " instead of " + show(n.v);
    if (!problem.empty()) { c.fail(std::string("bigint-") + op, what() + ": " + problem); throw StopCase(); }
}

cpp_int randomValue(Rng & r, unsigned maxDigits) {
    unsigned n = r.range(0, static_cast<int>(maxDigits));
    cpp_int v = 0;
    int style = r.range(0, 4);
    for (unsigned i = 0; i < n; ++i) {
        std::uint32_t d;
        switch (style) {
            case 0: d = static_cast<std::uint32_t>(r.u64()); break;
            case 1: d = 0xffffffffu; break;
            case 2: d = r.pick({0u, 0u, 1u, 0x80000000u, 0xffffffffu}); break;
            case 3: d = i == 0 ? 1u << r.range(0, 31) : 0; break;
            default: d = r.chance(.5) ? 0 : static_cast<std::uint32_t>(r.u64()); break;
        }
        v <<= 32; v |= d;
    }
    return r.chance(.5) ? cpp_int(-v) : v;
}

// Loads v into n without using the arithmetic under test (only setTo, multiplyPow2 by
// multiples of 32 and add would be needed otherwise): builds a BigInteger by assignment from
// one with hand-made digits is impossible through the public interface, so digits are
// accumulated with setTo/multiplyPow2/add, each step being verified.
void load(Ctx & c, Num & n, cpp_int const & v) {
    cpp_int m = v < 0 ? cpp_int(-v) : v;
    unsigned k = digitsOf(m);
    n.b.setToZero(); n.v = 0;
    if (k == 0) return;
    if (k <= 2 && n.capacity >= 2) {
        n.b.setTo(static_cast<std::uint64_t>(m)); n.v = m;
    } else {
        Num acc(n.capacity + 4), d(2);
        for (unsigned i = k; i-- > 0;) {
            std::uint32_t digit = static_cast<std::uint32_t>((m >> (32 * i)) & 0xffffffffu);
            acc.b.multiplyPow2(32); acc.v <<= 32;
            verify(c, acc, "load-shift", [&] { return "loading " + show(v); });
            d.b.setTo(static_cast<std::uint64_t>(digit));
            acc.b.add(d.b); acc.v += digit;
            verify(c, acc, "load-add", [&] { return "loading " + show(v); });
        }
        n.b = acc.b; n.v = acc.v;
    }
    if (v < 0) { n.b.negate(); n.v = -n.v; }
    verify(c, n, "load", [&] { return "loading " + show(v); });
}

}  // namespace

SECTION(arithmetic, 200000) {
    Rng & r = c.rng;
    unsigned md = r.chance(.7) ? 6 : 20;
    cpp_int a = randomValue(r, md), b = r.chance(.15) ? (r.chance(.5) ? a : cpp_int(-a)) : randomValue(r, md);
    if (r.chance(.2)) b = a + r.range(-2, 2);
    if (r.chance(.1)) { cpp_int t = 1; t <<= r.range(0, 200); b = r.chance(.5) ? cpp_int(a + t) : cpp_int(t - a); }
    int op = r.range(0, 5);
    cpp_int e;
    unsigned shift = 0, need;
    bool self = r.chance(.15);
    if (self) b = a;
    unsigned na = digitsOf(a), nb = digitsOf(b);
    switch (op) {
        case 0: e = a + b; need = std::max(na, nb) + 1; break;
        case 1: e = a - b; need = std::max(na, nb) + 1; break;
        case 2: e = a * b; need = na + nb; break;
        case 3: shift = r.chance(.5) ? r.range(0, 70) : 32 * r.range(0, 6) + r.pick({0, 0, 1, 31});
                e = a << shift; need = na + (shift + 31) / 32; break;
        case 4: e = b; need = nb; break;
        default: e = -a; need = na; break;
    }
    unsigned fit = digitsOf(e);
    // Capacities from too small, over exactly large enough, to roomy.
    unsigned cap = std::max(2u, na) + (r.chance(.5) ? need : r.below(need + 3));
    if (r.chance(.4)) cap = std::max({2u, na, r.chance(.5) ? need : fit});
    Num x(cap), y(std::max(2u, nb) + static_cast<unsigned>(r.below(2)));
    load(c, x, a);
    load(c, y, b);
    BigInteger const & o = self ? x.b : y.b;
    auto what = [&] { static char const * n[] = {"add", "subtract", "multiply", "multiplyPow2", "assign", "negate"};
        return std::string(n[op]) + (self ? " (same object)" : "") + " of " + show(a) + " and " + show(b) + " shift " + std::to_string(shift) + " capacity " + std::to_string(cap); };
    c.eval(hashOf(a) ^ mix(hashOf(b)) ^ mix(op * 1000 + shift));
    bool threw = false;
    try {
        BigInteger * res = &x.b;
        switch (op) {
            case 0: res = &x.b.add(o); break;
            case 1: res = &x.b.subtract(o); break;
            case 2: res = &x.b.multiply(o); break;
            case 3: res = &x.b.multiplyPow2(shift); break;
            case 4: res = &(x.b = o); break;
            default: x.b.negate(); break;
        }
        c.check(res == &x.b, "bigint-return", [&] { return what() + ": does not return the receiver"; });
    } catch (std::runtime_error const &) { threw = true; }
    c.count(threw ? "capacity_exceptions" : "results_compared");
    if (threw) {
        // Throwing is allowed only if the result may not fit; one digit of slack is tolerated.
        c.check(cap <= need, "bigint-spurious-throw", [&] { return what() + ": threw although " + std::to_string(need + 1) + " digits suffice"; });
    } else {
        c.check(fit <= cap, "bigint-no-throw", [&] { return what() + ": the result cannot fit but nothing was thrown"; });
        x.v = e;
        verify(c, x, op == 3 ? "shift" : "arith", what);
    }
    // The other operand must not change.
    if (!self) verify(c, y, "operand", what);
    c.sample([&] { return what() + " -> " + (threw ? "exception" : show(valueOf(x.b))); });
}

SECTION(histories, 6000) {
    Rng & r = c.rng;
    unsigned cap = static_cast<unsigned>(r.range(6, 40));
    std::vector<std::unique_ptr<Num>> n;
    for (int i = 0; i < 3; ++i) n.push_back(std::make_unique<Num>(cap));
    std::string log;
    for (int step = 0; step < 40; ++step) {
        Num & x = *n[r.below(3)];
        Num & y = *n[r.below(3)];
        int op = r.range(0, 7);
        cpp_int e;
        unsigned shift = static_cast<unsigned>(r.range(0, 80));
        std::int64_t s = r.chance(.5) ? static_cast<std::int64_t>(r.u64()) : r.pick({INT64_C(0), INT64_C(1), INT64_C(-1), INT64_MIN, INT64_MAX, INT64_C(0xffffffff), INT64_C(-0x100000000)});
        unsigned na = digitsOf(x.v), nb = digitsOf(y.v), need = 0;
        switch (op) {
            case 0: e = x.v + y.v; need = std::max(na, nb) + 1; break;
            case 1: e = x.v - y.v; need = std::max(na, nb) + 1; break;
            case 2: e = x.v * y.v; need = na + nb; break;
            case 3: e = x.v << shift; need = na + (shift + 31) / 32; break;
            case 4: e = s; break;
            case 5: e = static_cast<std::uint64_t>(s); break;
            case 6: e = -x.v; break;
            default: e = y.v; break;
        }
        if (need + 1 > cap) continue;
        log += " " + std::to_string(op) + ":" + std::to_string(shift);
        switch (op) {
            case 0: x.b.add(y.b); break;
            case 1: x.b.subtract(y.b); break;
            case 2: x.b.multiply(y.b); break;
            case 3: x.b.multiplyPow2(shift); break;
            case 4: x.b.setTo(s); break;
            case 5: x.b.setTo(static_cast<std::uint64_t>(s)); break;
            case 6: x.b.negate(); break;
            default: x.b = y.b; break;
        }
        cpp_int yv = y.v;
        x.v = e;
        c.eval(hashOf(e) ^ op);
        for (auto const & p : n) verify(c, *p, "history", [&] { return "after operations" + log; });
    }
    c.sample([&] { return "operations" + log; });
}
