#include "geo.h"
#include <geomc/linalg/Ray.h>
template <class T, index_t N> void ray(Ctx& c) {
    typedef Vec<T, N> V; typedef Ray<T, N> R; const ld E = std::numeric_limits<T>::epsilon(); V o = rdir<T, N>(c) * (T)!c.rng.chance(.2), d = rdir<T, N>(c), p; R r(o, d); T s = c.rng.chance(.2) ? (T)c.rng.range(-2, 2) : (T)c.rng.logmag(-3, 3); std::string k;
    switch (c.rng.below(5)) { case 0: p = o; k = "origin"; break; case 1: p = r.at_multiple((T)c.rng.logmag(-3, 3)); k = "on"; break; case 2: p = r.at_multiple((T)c.rng.logmag(-2, 2)) + rdir<T, N>(c) * (T)(d.mag() * pow(10, c.rng.uniform(-8, -2))); k = "near"; break; default: p = rdir<T, N>(c); k = "away"; }
    c.note = str([&](auto& q) { q << sv(o) << " + s " << sv(d) << ", " << s << ", " << sv(p); }); auto O = L(o), D = L(d), P = L(p); ld dm = lmag<N>(D), om = lmag<N>(O), pm = lmag<N>(P);
    NEARV(r.at_multiple(s), O + D * (ld)s, 4 * E * (om + fabsl(s) * dm), "at-multiple"); NEARV(r * s, O + D * (ld)s, 4 * E * (om + fabsl(s) * dm), "ray*s"); NEARV(s * r, O + D * (ld)s, 4 * E * (om + fabsl(s) * dm), "s*ray"); NEARV(r.at_distance(s), O + D * (s / dm), (N + 8) * E * (om + fabsl(s)), "at-distance");
    { V x = r.at_distance(s); c.check(fabsl(ldist<N>(L(x), O) - fabsl(s)) <= (N + 12) * E * (om + fabsl(s)), "distance-travelled"); }
    ld t = ldot<N>(P - O, D) / (dm * dm); auto W = O + D * t; ld sc = om + pm; NEARV(r.project(p), W, (4 * N + 16) * E * sc, "project"); { V q = r.project(p); NEARV(r.project(q), q, (8 * N + 32) * E * sc, "project-idempotent"); c.check(fabsl(ldot<N>(P - L(q), D)) <= (4 * N + 16) * E * sc * dm, "project-orthogonal"); }
    ld w = ldist<N>(P, W); T g = r.sdf(p), g2 = r.dist2(p); ld tol = (4 * N + 24) * E * sc; c.check(g >= 0 && fabsl(g - w) <= tol, "distance", [&](auto& q) { q << g << " want " << w; }); c.check(g2 >= 0 && fabsl(g2 - w * w) <= 2 * tol * (w + tol), "distance-squared", [&](auto& q) { q << g2 << " want " << w * w; });
    // no point of the line is closer
    for (int i = 0; i < 3; ++i) { auto X = O + D * (t + (ld)c.rng.gauss() * (fabsl(t) + 1)); c.check(g <= ldist<N>(P, X) + tol, "nearest"); }
    { R m = -r; c.check(m.origin == o && m.direction == -d, "reverse"); R z; bool ok = z.origin.is_zero() && z.direction[0] == 1; for (int i = 1; i < N; ++i) ok = ok && z.direction[i] == 0; c.check(ok, "default"); }
    { auto u = r.template resized<N + 1>(); auto l = r.template resized<(N > 2 ? N - 1 : 2)>(); bool ok = u.origin[N] == 0 && u.direction[N] == 0; for (int i = 0; i < N; ++i) ok = ok && u.origin[i] == o[i] && u.direction[i] == d[i]; for (int i = 0; i < (N > 2 ? N - 1 : 2); ++i) ok = ok && l.origin[i] == o[i] && l.direction[i] == d[i]; c.check(ok, "resized"); }
    c.cover("point-" + k); c.nontrivial(hcomb(hv(o), hcomb(hv(d), hv(p))));
}
TSUITE("double-2", 40000, 800000, (ray<double, 2>))
TSUITE("double-3", 40000, 800000, (ray<double, 3>))
TSUITE("double-5", 40000, 800000, (ray<double, 5>))
TSUITE("float-3", 40000, 800000, (ray<float, 3>))
TSUITE("float-4", 40000, 800000, (ray<float, 4>))
