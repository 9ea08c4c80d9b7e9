#include "vh.h"
#include <geomc/function/Path.h>
using namespace geom; using namespace vh; typedef long double ld;
template <class T, index_t N> void path(Ctx& c) {
    typedef Vec<T, N> V; Path<T, N> p; struct K { V o, d; }; std::vector<K> m; const ld eps = std::numeric_limits<T>::epsilon(); T mag = (T)std::abs(c.rng.logmag(-4, 4));
    auto rv = [&] { V v; for (index_t i = 0; i < N; ++i) v[i] = (T)c.rng.uniform(-1, 1) * mag; return v; };
    auto want = [&](ld t, int k, int order) { // segment k (-1: before, m.size()-1: after) as a polynomial in t; its derivative of given order
        std::vector<ld> r(N, 0); index_t n = m.size(); if (!n) return r; k = std::max(-1, std::min<int>(k, n - 1)); int a = std::max(k, 0), b = k < 0 ? 0 : std::min<int>(k + 1, n - 1); ld s = t - a, e = 0, e1 = 0, e2 = 0; if (a != b) { e = s * s * s * (s * (6 * s - 15) + 10); e1 = 30 * s * s * (s - 1) * (s - 1); e2 = 60 * s * (2 * s - 1) * (s - 1); }
        for (index_t i = 0; i < N; ++i) { ld x = m[a].o[i] + s * (ld)m[a].d[i], y = m[b].o[i] + (t - b) * (ld)m[b].d[i]; r[i] = order == 0 ? x + e * (y - x) : order == 1 ? m[a].d[i] + e * ((ld)m[b].d[i] - m[a].d[i]) + e1 * (y - x) : 2 * e1 * ((ld)m[b].d[i] - m[a].d[i]) + e2 * (y - x); } return r; };
    index_t steps = 10 + c.rng.below(30); uint64_t h = 1;
    for (index_t q = 0; q < steps; ++q) {
        if (c.rng.chance(m.size() < 3 ? .4 : .1)) { V o = rv(), d = rv(); p.appendKnot(o, d); m.push_back({o, d}); h = hcomb(h, hval(o[0])); c.cover("append"); }
        else if (m.size() && c.rng.chance(.08)) { index_t k = c.rng.below(m.size()); V o = rv(), d = rv(); p.knots[k] = Ray<T, N>(o, d); m[k] = {o, d}; c.cover("edit"); }
        index_t n = m.size(); ld t; int kind = c.rng.below(6);
        switch (kind) { case 0: t = c.rng.range(-3, (int64_t)n + 3); break; case 1: { ld k = c.rng.range(-1, (int64_t)n + 1); t = std::nextafter((T)k, (T)(c.rng.coin() ? 1e9 : -1e9)); break; } case 2: t = (T)(c.rng.logmag(0, std::is_same<T, float>::value ? 30 : 100)); break; default: t = c.rng.uniform(-1.5, n + 1.5); }
        T tt = (T)t; t = tt; const Path<T, N>& cp = p; V got = cp.eval(tt); int k = t < 0 ? -1 : t >= (ld)n - 1 ? (int)n - 1 : (int)t; auto w = want(t, k, 0); ld sc = 0; if (n) for (int a = std::max(0, k); a <= std::max(0, std::min<int>(k + 1, n - 1)); ++a) for (index_t i = 0; i < N; ++i) sc = std::max(sc, fabsl(m[a].o[i]) + (fabsl(t - a) + 1) * fabsl(m[a].d[i])); ld pe = eps * (fabsl(t) + 1); ld err = 0; for (index_t i = 0; i < N; ++i) err = std::max(err, got[i] == got[i] ? fabsl(got[i] - w[i]) : INFINITY);
        ld tol = sc * (32 * eps + 40 * (k >= 0 && k < (int)n - 1 ? pe : 0)); c.check(err <= tol, n == 0 ? "empty" : k < 0 ? "before" : k >= (int)n - 1 ? "after" : "between", [&](auto& o) { o << n << " knots, t = " << (double)t << ": off by " << (double)err << " tolerance " << (double)tol; });
        c.cover(n == 0 ? "empty" : k < 0 ? "before" : k >= (int)n - 1 ? "after" : "between"); if (kind == 0 && t >= 0 && t < n) { bool eq = true; for (index_t i = 0; i < N; ++i) eq = eq && got[i] == m[(size_t)t].o[i]; c.check(eq, "meets-knot", [&](auto& o) { o << "knot " << (double)t; }); c.cover("knot"); }
        if (n > 1 && c.rng.chance(.3)) { // across a knot: position, velocity and acceleration agree from both sides (finite differences on the code)
            index_t kn = c.rng.below(n); T hh = (T)std::pow(2.0, std::is_same<T, float>::value ? -5 : -9); V a0 = cp.eval((T)kn - 2 * hh), a1 = cp.eval((T)kn - hh), b0 = cp.eval((T)kn), b1 = cp.eval((T)kn + hh), b2 = cp.eval((T)kn + 2 * hh); ld s2 = 0; for (index_t i = 0; i < N; ++i) for (index_t a = std::max<index_t>(kn - 1, 0); a <= std::min(kn + 1, n - 1); ++a) s2 = std::max(s2, fabsl(m[a].o[i]) + 2 * fabsl(m[a].d[i]));
            ld ev = 0, ea = 0; for (index_t i = 0; i < N; ++i) { ld v = ((ld)b1[i] - a1[i]) / (2 * hh); ev = std::max(ev, fabsl(v - m[kn].d[i])); ea = std::max({ea, fabsl((ld)b2[i] - 2 * (ld)b1[i] + b0[i]), fabsl((ld)a0[i] - 2 * (ld)a1[i] + b0[i])}); }
            ld rnd = 256 * eps * (kn + 1) * s2; c.check(ev <= 300 * hh * hh * s2 + rnd / hh && ea <= 600 * (ld)hh * hh * hh * s2 + rnd, "smooth-at-knot", [&](auto& o) { o << "knot " << kn << " of " << n << ": tangent off by " << (double)ev << ", second difference " << (double)ea; }); c.cover("smooth"); }
    }
    { Path<T, N> cpy = p; p.appendKnot(rv(), rv()); bool ok = cpy.knots.size() == m.size(); for (size_t i = 0; ok && i < m.size(); ++i) ok = cpy.knots[i].origin == m[i].o && cpy.knots[i].direction == m[i].d; c.check(ok, "knots"); }
    T bad[] = {(T)INFINITY, -(T)INFINITY, (T)NAN, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()}; for (T b : bad) { volatile T x = p.eval(b)[0]; (void)x; } c.cover("hostile-parameter", 5);
    c.nontrivial(h);
}
TSUITE("double-2", 3000, 200000, (path<double, 2>)) TSUITE("double-3", 3000, 200000, (path<double, 3>)) TSUITE("double-5", 3000, 200000, (path<double, 5>)) TSUITE("float-2", 3000, 200000, (path<float, 2>)) TSUITE("float-4", 3000, 200000, (path<float, 4>))
