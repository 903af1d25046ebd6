// Workload and monitor support shared by all harnesses. A harness consists of
// sections; a section is a function called once per case, with a random
// number generator seeded from (VERIF_SEED, section, case), so that any case
// can be replayed alone. Monitors report violations with Ctx::fail.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace vh {

inline std::uint64_t mix(std::uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline std::uint64_t hashBytes(void const * p, size_t n, std::uint64_t h = 0) {
    auto c = static_cast<unsigned char const *>(p);
    h = mix(h ^ n);
    while (n >= 8) { std::uint64_t x; std::memcpy(&x, c, 8); h = mix(h ^ x); c += 8; n -= 8; }
    std::uint64_t x = 0; if (n) std::memcpy(&x, c, n);
    return mix(h ^ x);
}

inline std::uint64_t bits(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); return u; }
inline double fromBits(std::uint64_t u) { double d; std::memcpy(&d, &u, 8); return d; }

struct Rng {
    std::uint64_t s[4];
    explicit Rng(std::uint64_t seed) { for (auto & x : s) { seed += 0x9e3779b97f4a7c15ull; x = mix(seed); } }
    static std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    std::uint64_t u64() {
        std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    // integer in [0, n)
    std::uint64_t below(std::uint64_t n) { return n ? static_cast<std::uint64_t>((static_cast<unsigned __int128>(u64()) * n) >> 64) : 0; }
    int range(int a, int b) { return a + static_cast<int>(below(static_cast<std::uint64_t>(b - a + 1))); }
    double uni() { return (u64() >> 11) * 0x1p-53; }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    double logUni(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    double gauss() {
        double u = 1.0 - uni(), v = uni();
        return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <typename T> T const & pick(std::vector<T> const & v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return v.begin()[below(v.size())]; }
};

inline std::string jsonEscape(std::string const & s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}

inline std::string str(double d) { char b[64]; std::snprintf(b, sizeof b, "%.17g", d); return b; }
template <typename T> std::string toStr(T const & t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }

struct StopCase {};

struct Ctx {
    Rng rng{0};
    std::string section;
    std::uint64_t seed = 0, index = 0;
    bool verbose = false;

    std::uint64_t evaluations = 0, failures = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> counts;
    std::map<std::string, int> failuresByKey;
    std::vector<std::string> samples;
    FILE * out = nullptr;

    // Records one oracle decision on a case identified by `h`.
    void eval(std::uint64_t h = 0) {
        ++evaluations;
        if (h && distinct.size() < 400000) distinct.insert(mix(h));
    }
    void count(char const * name, std::uint64_t n = 1) { counts[name] += n; }
    void sample(std::function<std::string()> const & f) { if (samples.size() < 2 && (index % 7 == 0 || verbose)) samples.push_back(section + ": " + f()); }
    void fail(std::string const & key, std::string const & msg) {
        ++failures;
        if (verbose) std::fprintf(stderr, "FAIL %s: %s\n", key.c_str(), msg.c_str());
        if (++failuresByKey[key] > 3) return;
        std::fprintf(out, "{\"kind\":\"fail\",\"section\":\"%s\",\"case\":%" PRIu64 ",\"key\":\"%s\",\"msg\":\"%s\"}\n",
                     section.c_str(), index, jsonEscape(key).c_str(), jsonEscape(msg.substr(0, 3000)).c_str());
        std::fflush(out);
    }
    template <typename F> void check(bool ok, char const * key, F const & msg) { if (!ok) fail(key, msg()); }
};

struct Section { std::string name; std::uint64_t cases; void (*fn)(Ctx &); };
inline std::vector<Section> & sections() { static std::vector<Section> v; return v; }
struct Registrar { Registrar(char const * n, std::uint64_t c, void (*f)(Ctx &)) { sections().push_back({n, c, f}); } };

#define SECTION(name, cases) \
    static void name(vh::Ctx & c); \
    static vh::Registrar registrar_##name(#name, cases, name); \
    static void name(vh::Ctx & c)

inline std::uint64_t caseSeed(std::uint64_t seed, std::string const & section, std::uint64_t i) {
    return mix(mix(seed * 0x51ed27 + 17) ^ hashBytes(section.data(), section.size()) ^ mix(i));
}

inline std::string describeException(std::exception const & e) {
    return std::string(typeid(e).name()) + ": " + e.what();
}

inline int runMain(int argc, char ** argv) {
    std::map<std::string, std::string> a;
    ::prctl(PR_SET_PDEATHSIG, SIGKILL);  // do not outlive the driver
    if (argc == 2 && std::string(argv[1]) == "--list") {
        for (auto const & s : sections()) std::printf("%s %" PRIu64 "\n", s.name.c_str(), s.cases);
        return 0;
    }
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    Ctx c;
    c.seed = std::strtoull(a["--seed"].c_str(), nullptr, 10);
    c.verbose = a.count("--verbose") != 0;
    std::uint64_t from = std::strtoull(a["--from"].c_str(), nullptr, 10);
    std::uint64_t to = std::strtoull(a["--to"].c_str(), nullptr, 10);
    c.out = a.count("--out") ? std::fopen(a["--out"].c_str(), "a") : stdout;
    if (!c.out) { std::perror("out"); return 3; }
    std::uint64_t * crumb = nullptr;
    if (a.count("--crumb")) {
        int fd = ::open(a["--crumb"].c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ::ftruncate(fd, 8) != 0) { std::perror("crumb"); return 3; }
        crumb = static_cast<std::uint64_t *>(::mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (crumb == MAP_FAILED) { std::perror("crumb"); return 3; }
    }
    Section const * sec = nullptr;
    for (auto const & s : sections()) if (s.name == a["--section"]) sec = &s;
    if (!sec) { std::fprintf(stderr, "no such section\n"); return 3; }
    c.section = sec->name;
    for (std::uint64_t i = from; i < to; ++i) {
        if (crumb) *static_cast<std::uint64_t volatile *>(crumb) = i;
        c.index = i;
        c.rng = Rng(caseSeed(c.seed, c.section, i));
        try {
            sec->fn(c);
        } catch (StopCase const &) {
        } catch (std::exception const & e) {
            c.fail("unexpected-exception", describeException(e));
        } catch (...) {
            c.fail("unknown-exception", "an exception not derived from std::exception");
        }
        if (c.failures > 200) break;
    }
    std::fprintf(c.out, "{\"kind\":\"done\",\"section\":\"%s\",\"evaluations\":%" PRIu64 ",\"failures\":%" PRIu64 ",\"counts\":{",
                 c.section.c_str(), c.evaluations, c.failures);
    bool first = true;
    for (auto const & p : c.counts) { std::fprintf(c.out, "%s\"%s\":%" PRIu64, first ? "" : ",", p.first.c_str(), p.second); first = false; }
    std::fprintf(c.out, "},\"samples\":[");
    first = true;
    for (auto const & s : c.samples) { std::fprintf(c.out, "%s\"%s\"", first ? "" : ",", jsonEscape(s.substr(0, 600)).c_str()); first = false; }
    std::fprintf(c.out, "]}\n");
    std::fclose(c.out);
    if (a.count("--hashes")) {
        FILE * f = std::fopen(a["--hashes"].c_str(), "ab");
        if (!f) return 3;
        std::vector<std::uint64_t> v(c.distinct.begin(), c.distinct.end());
        std::fwrite(v.data(), 8, v.size(), f);
        std::fclose(f);
    }
    return 0;
}

}  // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char ** argv) { return vh::runMain(argc, argv); }
#endif
