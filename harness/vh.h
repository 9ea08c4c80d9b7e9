// Common monitoring harness. Every property's monitor is a set of suites of numbered cases.
// A case draws all its choices from (VERIF_SEED, suite, index), so any case can be replayed alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <limits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <iostream>
#include <optional>
#include <type_traits>

namespace vh {

typedef uint64_t u64;
typedef int64_t  i64;

inline u64 mix64(u64 z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline u64 hstr(const char* s) {
    u64 h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}
inline u64 hcomb(u64 a, u64 b) { return mix64(a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2))); }
inline u64 hval(double d) { u64 u; std::memcpy(&u, &d, 8); return mix64(u); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31); }
    // uniform in [0,n)
    u64 below(u64 n) { return n == 0 ? 0 : (u64)(((unsigned __int128)next() * n) >> 64); }
    // inclusive
    i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }
    bool coin() { return next() >> 63; }
    bool chance(double p) { return unit() < p; }
    double unit() { return (next() >> 11) * 0x1.0p-53; }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    double gauss() {
        double u = unit(), v = unit();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
    }
    // log-uniform magnitude, random sign
    double logmag(double e0, double e1) { double m = std::pow(10., uniform(e0, e1)); return coin() ? m : -m; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
};

// the default generator is documented as not usable by several threads
#ifdef VH_VARIANT_TSAN
constexpr bool SHARED_RNG = false;
#else
constexpr bool SHARED_RNG = true;
#endif
struct Failure { std::string what, msg; u64 index; std::string suite; };

struct Ctx;
typedef void (*suite_fn)(Ctx&);
struct Suite { const char* name; u64 nq, nt; suite_fn fn; bool fixed; };
inline std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
struct Reg { Reg(const char* n, u64 q, u64 t, suite_fn f, bool fixed = false) { suites().push_back({n, q, t, f, fixed}); } };

struct Stats {
    u64 evaluations = 0;   // oracle comparisons made
    u64 cases = 0;
    std::unordered_set<u64> distinct;
    std::map<std::string, u64> cover;
    std::vector<std::string> samples;
    std::vector<Failure> fails;
    std::map<std::string, u64> fail_counts;
    std::map<std::string, double> maxima;
};
// under the race detector every thread has its own monitors
#ifdef VH_VARIANT_TSAN
#define VH_TLS thread_local
#else
#define VH_TLS
#endif
inline Stats& stats() { static VH_TLS Stats s; return s; }
extern int g_thorough;
extern int g_verbose;

struct Ctx {
    const char* suite;
    u64 seed, index;
    Rng rng;
    std::string note;  // description of the current case; shown in violations
    bool fixed_case = false;

    void cover(const std::string& k, u64 n = 1) { stats().cover[k] += n; }
    void maximum(const std::string& k, double v) { double& m = stats().maxima[k]; if (v > m) m = v; }
    // record a distinct, non-trivial case, identified by hash
    void nontrivial(u64 h) { h = hcomb(hstr(suite), h); if (stats().distinct.size() < 4000000) stats().distinct.insert(h); }
    void sample(const std::string& s) { if (stats().samples.size() < 3) stats().samples.push_back(s.size() > 600 ? s.substr(0, 600) : s); }
    bool want_sample() const { return stats().samples.size() < 3; }
    void fail(const std::string& what, const std::string& msg) {
        u64& n = stats().fail_counts[what];
        if (n++ < 3) stats().fails.push_back({what, msg + (note.empty() ? "" : " | case: " + note), index, suite});
        if (g_verbose) std::cerr << "FAIL " << suite << ":" << index << " " << what << ": " << msg << " | " << note << "\n";
    }
    bool check(bool ok, const char* what) {
        stats().evaluations++;
        if (!ok) fail(what, "");
        return ok;
    }
    template <class F> bool check(bool ok, const char* what, F&& msg) {
        stats().evaluations++;
        if (!ok) { std::ostringstream o; o.precision(17); msg(o); fail(what, o.str()); }
        return ok;
    }
    template <class A, class B> bool eq(const A& got, const B& want, const char* what) {
        stats().evaluations++;
        bool ok = (got == want);
        if (!ok) { std::ostringstream o; o.precision(17); o << "got " << got << " want " << want; fail(what, o.str()); }
        return ok;
    }
    // |got - want| <= tol; NaN fails
    bool near(double got, double want, double tol, const char* what) {
        stats().evaluations++;
        bool ok = (got == want) || std::abs(got - want) <= tol;
        if (!ok) { std::ostringstream o; o.precision(17); o << "got " << got << " want " << want << " tol " << tol; fail(what, o.str()); }
        return ok;
    }
};

#define VH_CAT2(a,b) a##b
#define VH_CAT(a,b) VH_CAT2(a,b)
// SUITE(name, quick cases, thorough cases) { ... c ... }
#define SUITE(NAME, NQ, NT) \
    static void VH_CAT(suite_fn_, __LINE__)(vh::Ctx& c); \
    static vh::Reg VH_CAT(suite_reg_, __LINE__)(NAME, NQ, NT, VH_CAT(suite_fn_, __LINE__)); \
    static void VH_CAT(suite_fn_, __LINE__)(vh::Ctx& c)
// a fixed enumeration of N cases: never scaled, the same cases in every build and for every seed where it ignores rng
#define FSUITE(NAME, N) \
    static void VH_CAT(suite_fn_, __LINE__)(vh::Ctx& c); \
    static vh::Reg VH_CAT(suite_reg_, __LINE__)(NAME, N, N, VH_CAT(suite_fn_, __LINE__), true); \
    static void VH_CAT(suite_fn_, __LINE__)(vh::Ctx& c)
// template instantiation form: TSUITE(name, nq, nt, function)
#define TSUITE(NAME, NQ, NT, ...) \
    static vh::Reg VH_CAT(suite_reg_, __COUNTER__)(NAME, NQ, NT, __VA_ARGS__);

template <class F> inline std::string str(F&& f) { std::ostringstream o; o.precision(17); f(o); return o.str(); }

} // namespace vh
using vh::Ctx;
using vh::u64;
using vh::i64;
using vh::Rng;
