#include "stat.h"
#include <geomc/function/Dual.h>
#include <geomc/random/Random.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
using namespace geom; using namespace vh;
typedef unsigned __int128 u128; typedef __int128 i128;
static std::unique_ptr<Random> source(Ctx& c) { u64 s = c.rng.next(); switch (c.rng.below(3)) { case 0: return std::make_unique<LCRand>(s); case 1: return std::make_unique<MTRand>(s); default: return std::make_unique<XoshiroRand>(s); } }

// an integer drawn from [lo, lo + n): range, coarse position, and residues
struct IntMon { i128 lo; u128 n; u64 bins, mods; std::vector<u64> b, m; bool out = false;
    IntMon(Ctx& c, i128 lo, u128 n) : lo(lo), n(n), bins((u64)std::min<u128>(n, 2 + c.rng.below(60))), mods((u64)std::min<u128>(n, 2 + c.rng.below(15))), b(bins), m(mods) {}
    void see(i128 v) { if (v < lo || v - lo >= (i128)n) { out = true; return; } u128 d = (u128)(v - lo); b[(u64)(d * bins / n)]++; m[(u64)(d % mods)]++; }
    void judge(Ctx& c) { c.check(!out, "range"); std::vector<double> p; // bin k holds d with floor(d*bins/n)==k: ceil(k*n/bins) .. ceil((k+1)*n/bins)
        auto edge = [&](u64 k) { return ((u128)k * n + bins - 1) / bins; }; for (u64 k = 0; k < bins; ++k) p.push_back((double)((long double)(edge(k + 1) - edge(k)) / n)); chi(c, b, p, "position"); std::vector<double> q; for (u64 k = 0; k < mods; ++k) q.push_back((double)((long double)((n - 1 - k) / mods + 1) / n)); chi(c, m, q, "residue"); } };
template <class T> static u128 bound(Ctx& c, u128 max) { int w = 0; while ((max >> w) > 1) ++w; ++w; u128 r; // 1 .. max
    switch (c.rng.below(7)) { case 0: r = 1 + c.rng.below(20); break; case 1: r = ((u128)1 << c.rng.below(w)) + c.rng.range(-1, 1); c.cover("bound-pow2"); break; case 2: r = max - c.rng.below(4); c.cover("bound-max"); break;
      case 3: r = max / 16 * (u128)c.rng.range(8, 15) + c.rng.below(max / 16); c.cover("bound-huge"); break; case 4: r = max / 2 + c.rng.range(-2, 2); c.cover("bound-half"); break; case 5: r = (u128)c.rng.next() >> c.rng.below(w); break; default: r = 1 + c.rng.below(1000); }
    if (r < 1) r = 1; if (r > max) r = max; return r; }
template <class T> void below(Ctx& c) {
    auto g = source(c); const bool sg = std::is_signed_v<T>; u128 max = sg ? (u128)std::numeric_limits<T>::max() + 1 : (u128)std::numeric_limits<T>::max(); u128 n = bound<T>(c, max); bool neg = sg && (c.rng.coin() || n == max); T hi = neg ? (T)(-(i128)n) : (T)n;
    c.note = "bound " + std::to_string(hi); IntMon m(c, neg ? -(i128)n + 1 : 0, n); int k = 20000; for (int i = 0; i < k; ++i) m.see((i128)g->rand<T>(hi)); m.judge(c); c.cover(neg ? "negative-bound" : "bound"); c.eq(g->rand<T>((T)0), (T)0, "empty-range"); c.nontrivial(hcomb((u64)n, neg));
}
template <class T> void between(Ctx& c) {
    auto g = source(c); i128 mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(); u128 n = bound<T>(c, (u128)(mx - mn)); i128 room = mx - mn - (i128)n; i128 lo = c.rng.chance(.2) ? mn : c.rng.chance(.2) ? mn + room : c.rng.chance(.3) ? std::min(std::max(mn, (i128)-(i128)(n / 2)), mn + room) : mn + (i128)((u128)c.rng.next() % ((u128)room + 1)); T a = (T)lo, b = (T)(lo + (i128)n); bool rev = c.rng.chance(.3);
    c.note = "between " + std::to_string(rev ? b : a) + " and " + std::to_string(rev ? a : b); IntMon m(c, lo, n); for (int i = 0; i < 20000; ++i) m.see(rev ? (i128)g->rand<T>(b, a) : (i128)g->rand<T>(a, b)); m.judge(c); c.cover(rev ? "reversed" : "between"); if (lo < 0 && lo + (i128)n > 0) c.cover("crosses-zero"); c.eq(g->rand<T>(a, a), a, "single-value"); c.nontrivial(hcomb((u64)lo, (u64)n));
}
template <class T> void whole(Ctx& c) {
    auto g = source(c); const int W = sizeof(T) * 8; std::vector<u64> top(64), low(64), bit(W); int n = 20000; std::vector<u64> pair(16); u64 prev = 0;
    for (int i = 0; i < n; ++i) { u64 v = (u64)(std::make_unsigned_t<T>)g->rand<T>(); top[v >> (W - 6)]++; low[v & 63]++; for (int b = 0; b < W; ++b) bit[b] += v >> b & 1; pair[(v >> (W - 2)) * 4 + prev]++; prev = v >> (W - 2); }
    chiu(c, top, "top-bits"); chiu(c, low, "low-bits"); chiu(c, pair, "consecutive"); for (int b = 0; b < W; ++b) c.check(std::abs(bit[b] - n / 2.) < 8 * std::sqrt(n / 4.), "every-bit", [&](auto& o) { o << "bit " << b << " set " << bit[b] << " of " << n; }); c.cover("whole"); c.nontrivial(c.index);
}
TSUITE("below/unsigned", 120, 4000, (below<unsigned>)) TSUITE("below/int", 120, 4000, (below<int>)) TSUITE("below/ulong", 120, 4000, (below<unsigned long>)) TSUITE("below/long", 120, 4000, (below<long>)) TSUITE("below/ulonglong", 120, 4000, (below<unsigned long long>)) TSUITE("below/longlong", 120, 4000, (below<long long>))
TSUITE("between/int", 200, 8000, (between<int>)) TSUITE("between/longlong", 200, 8000, (between<long long>))
TSUITE("whole/unsigned", 20, 1000, (whole<unsigned>)) TSUITE("whole/int", 20, 1000, (whole<int>)) TSUITE("whole/ulong", 20, 1000, (whole<unsigned long>)) TSUITE("whole/long", 20, 1000, (whole<long>)) TSUITE("whole/ulonglong", 20, 1000, (whole<unsigned long long>)) TSUITE("whole/longlong", 20, 1000, (whole<long long>))

SUITE("bool", 60, 3000) {
    auto g = source(c); std::vector<u64> w(256), lag(64 * 2); u64 h = 0; int n = 60000; std::vector<u64> eq(70); for (int i = 0; i < n; ++i) { bool b = g->rand<bool>(); h = h << 1 | b; if (i % 8 == 7) w[h & 255]++; for (int l = 1; l < 64; ++l) if (i >= 64) eq[l] += (h >> l & 1) == b; if (c.rng.chance(.01)) g->rand32(); }
    chiu(c, w, "octets"); for (int l = 1; l < 64; ++l) c.check(std::abs((double)eq[l] - (n - 64) / 2.) < 8 * std::sqrt(n / 4.), "lag", [&](auto& o) { o << "lag " << l << " equal " << eq[l]; }); c.cover("bool"); c.nontrivial(c.index);
}
template <class T> void unit(Ctx& c) {
    auto g = source(c); int n = 40000; std::vector<double> u; const int M = std::numeric_limits<T>::digits - 1; std::vector<u64> ex(20), mb(M), top(32), low(32), pair(64); int k = 0; bool in = true; double prev = 0;
    for (int i = 0; i < n; ++i) { T x = g->rand<T>(); in = in && x >= 0 && x <= 1; if (!in) break; u.push_back(x); int e; T f = std::frexp(x, &e); if (x == 1) { f = .5; e = 1; } ex[std::min(19, std::max(0, 0 - e))]++; u64 m = (u64)std::ldexp((double)(f * 2 - 1), M); top[m >> (M - 5)]++; low[m & 31]++; for (int b = 0; b < M; ++b) mb[b] += m >> b & 1; ++k; pair[std::min(7, (int)(x * 8)) * 8 + std::min(7, (int)(prev * 8))]++; prev = x; }
    c.check(in, "range"); if (!in) return; std::vector<double> p; for (int i = 0; i < 19; ++i) p.push_back(std::ldexp(1., -i - 1)); p.push_back(std::ldexp(1., -19)); ks(c, u, "uniform"); chi(c, ex, p, "exponent"); chiu(c, top, "mantissa-high"); chiu(c, low, "mantissa-low"); chiu(c, pair, "consecutive"); for (int b = 0; b < M; ++b) c.check(std::abs(mb[b] - k / 2.) < 8 * std::sqrt(k / 4.), "mantissa-bit", [&](auto& o) { o << "bit " << b << " set " << mb[b] << " of " << k; }); c.cover("unit"); c.nontrivial(c.index);
}
TSUITE("unit/float", 60, 3000, (unit<float>)) TSUITE("unit/double", 60, 3000, (unit<double>))
template <class T> void span(Ctx& c) {
    auto g = source(c); T a = (T)c.rng.logmag(-6, 6), b = c.rng.chance(.3) ? (T)(a * (T)c.rng.uniform(.5, 2)) : (T)c.rng.logmag(-6, 6); bool one = c.rng.chance(.3); if (one) a = 0; if (a == b) return; c.note = str([&](auto& o) { o << (one ? "below " : "between ") << a << " and " << b; }); std::vector<double> u; bool in = true; T lo = std::min(a, b), hi = std::max(a, b);
    for (int i = 0; i < 10000; ++i) { T x = one ? g->rand<T>(b) : g->rand<T>(a, b); in = in && x >= lo && x <= hi; u.push_back(((double)x - lo) / ((double)hi - lo)); } c.check(in, "range"); double res = std::numeric_limits<T>::epsilon() * std::max(std::abs((double)a), std::abs((double)b)) / ((double)hi - lo); if (res < .01) ks(c, u, "uniform", res); c.cover(one ? "span-one" : a < 0 && b > 0 ? "span-crossing" : "span"); c.nontrivial(hcomb(hval(a), hval(b)));
}
TSUITE("span/float", 200, 8000, (span<float>)) TSUITE("span/double", 200, 8000, (span<double>))

// entropy chosen to reach the extremes: constant and patterned words, then ordinary ones
struct Script : Random { Rng r; std::vector<uint32_t> w; size_t at = 0; u64 calls = 0; Script(u64 s) : r(s) {} uint32_t rand32() override { ++calls; return at < w.size() ? w[at++] : (uint32_t)r.next(); } void rseed(uint64_t) override {} };
SUITE("extremes", 60000, 3000000) {
    Script s(c.rng.next()); int n = (int)c.rng.below(60); uint32_t base = c.rng.chance(.4) ? 0xffffffffu : c.rng.chance(.5) ? 0 : (uint32_t)c.rng.next(); for (int i = 0; i < n; ++i) s.w.push_back(c.rng.chance(.1) ? (uint32_t)c.rng.next() : c.rng.chance(.1) ? 1u << c.rng.below(32) : base);
    while (s.at < s.w.size()) { size_t was = s.at;
        switch (c.rng.below(10)) {
          case 0: { float x = s.rand<float>(); c.check(x >= 0 && x <= 1, "float"); if (x == 1) c.cover("float-one"); if (x < 1e-30f) c.cover("float-tiny"); break; }
          case 1: { double x = s.rand<double>(); c.check(x >= 0 && x <= 1, "double"); if (x == 1) c.cover("double-one"); break; }
          case 2: { float a = (float)c.rng.logmag(-6, 6), b = (float)c.rng.logmag(-6, 6), x = s.rand<float>(a, b); c.check(x >= std::min(a, b) && x <= std::max(a, b), "float-span", [&](auto& o) { o << x << " not between " << a << " and " << b; }); break; }
          case 3: { double a = c.rng.logmag(-6, 6), b = c.rng.logmag(-6, 6), x = s.rand<double>(a, b); c.check(x >= std::min(a, b) && x <= std::max(a, b), "double-span", [&](auto& o) { o << x << " not between " << a << " and " << b; }); break; }
          case 4: { unsigned hi = (unsigned)bound<unsigned>(c, ~0u); c.check(s.rand<unsigned>(hi) < hi, "unsigned"); break; }
          case 5: { unsigned long hi = (unsigned long)bound<unsigned long>(c, ~0ul); c.check(s.rand<unsigned long>(hi) < hi, "ulong"); break; }
          case 6: { int a = (int)c.rng.next(), b = (int)c.rng.next(), x = s.rand<int>(a, b); c.check(x >= std::min(a, b) && x <= std::max(a, b), "int-span"); break; }
          case 7: { long long a = (long long)c.rng.next(), b = (long long)c.rng.next(), x = s.rand<long long>(a, b); c.check(x >= std::min(a, b) && x <= std::max(a, b), "longlong-span"); break; }
          case 8: { float b = (float)c.rng.logmag(-6, 6), x = s.rand<float>(b); c.check(x >= std::min(0.f, b) && x <= std::max(0.f, b), "float-below"); break; }
          default: { for (int i = 0, k = (int)c.rng.below(40); i < k; ++i) s.rand<bool>(); s.rand32(); } }
        c.cover("draws"); if (s.at == was) s.at++; }
    c.nontrivial(c.index);
}
SUITE("dual", 2000, 100000) {
    MTRand a(c.index), b(c.index); Dual<double> x = a.rand<Dual<double>>(), y = a.rand(Dual<double>(3, 1)), z = a.rand(Dual<double>(-1, 2), Dual<double>(2, 5)); c.check(x.x == b.rand<double>() && x.dx == 0 && y.x == b.rand<double>(3) && y.dx == 0 && z.x == b.rand<double>(-1, 2) && z.dx == 0, "dual"); c.cover("dual"); c.nontrivial(c.index);
}
// ---- shuffles
template <class F> static void shuffles(Ctx& c, F&& shuffle) {
    auto g = source(c); int n = 1 + (int)c.rng.below(c.rng.coin() ? 5 : 12); c.note = std::to_string(n) + " objects"; u64 fact = 1; for (int i = 2; i <= n; ++i) fact *= i; std::vector<u64> where(n * n), perm(n <= 5 ? fact : 0); int k = 4000; bool ok = true;
    for (int t = 0; t < k && ok; ++t) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back("object number " + std::to_string(i)); shuffle(v, *g); std::vector<int> id; for (auto& s : v) id.push_back(s.size() > 14 ? atoi(s.c_str() + 14) : -1); auto o = id; std::sort(o.begin(), o.end()); ok = (int)v.size() == n; for (int i = 0; i < n && ok; ++i) ok = o[i] == i; if (!ok) break; for (int i = 0; i < n; ++i) where[i * n + id[i]]++; if (n <= 5) { u64 r = 0; for (int i = 0; i < n; ++i) { int less = 0; for (int j = i + 1; j < n; ++j) less += id[j] < id[i]; r = r * (n - i) + less; } perm[r]++; } }
    c.check(ok, "permutation"); if (!ok || n < 2) return; for (int i = 0; i < n; ++i) chiu(c, std::vector<u64>(where.begin() + i * n, where.begin() + (i + 1) * n), "positions"); if (n <= 5) chiu(c, perm, "orders"); c.cover("shuffles", k); c.nontrivial(hcomb(n, c.index));
}
SUITE("permute/array", 60, 2000) { shuffles(c, [](std::vector<std::string>& v, Random& g) { permute(v.data(), v.size(), g); }); }
SUITE("permute/vector", 60, 2000) { shuffles(c, [](std::vector<std::string>& v, Random& g) { permute(v, g); }); }
