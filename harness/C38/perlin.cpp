#include "vh.h"
#include <geomc/function/PerlinNoise.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
using namespace geom; using namespace vh; typedef long double ld;
template <class T, index_t N> void noise(Ctx& c) {
    typedef PerlinNoise<T, N> P; typedef PointType<T, N> PT; typedef typename PT::point_t V; const ld eps = std::numeric_limits<T>::epsilon();
    uint64_t seed = c.rng.next(); MTRand g1(seed), g2(seed), g3(seed + 1); bool dflt = SHARED_RNG && c.rng.chance(.1); P p = dflt ? P() : P(&g1); const P& cp = p; P q(&g2), r(&g3); c.note = str([&](auto& o) { o << "seed " << seed; });
    auto vec = [&](const std::vector<T>& x) { V v; for (index_t i = 0; i < N; ++i) PT::iterator(v)[i] = x[i]; return v; };
    auto lat = [&](const std::vector<ld>& x) { std::vector<T> y(x.begin(), x.end()); return vec(y); };
    auto at = [](const V& v, index_t i) { return (ld)PT::iterator(v)[i]; };
    int range = c.rng.below(4); ld R = range == 0 ? 2 : range == 1 ? 100 : range == 2 ? 1e5L : std::is_same<T, float>::value ? 8e6L : 2e15L; bool differs = false;
    for (int k = 0; k < 12; ++k) {
        std::vector<T> x; std::vector<ld> base, f; for (index_t i = 0; i < N; ++i) { T v = (T)c.rng.uniform(-(double)R, (double)R); switch (c.rng.below(6)) { case 0: v = std::floor(v); break; case 1: v = std::nextafter(std::floor(v), (T)-1e30); break; case 2: v = std::nextafter(std::floor(v), (T)1e30); break; default: break; } if (v == (T)0 && c.rng.coin()) v = (T)-0.0; x.push_back(v); ld b = floorl(v); base.push_back(b); f.push_back((ld)v - b); }
        V pt = vec(x); T got = cp.eval(pt); auto gr = cp.gradient(pt); const int C = 1 << N; ld val = 0; std::vector<ld> grad(N, 0); ld big = 0; bool lattice = true; for (ld z : f) lattice = lattice && z == 0;
        for (int k2 = 0; k2 < C; ++k2) { std::vector<ld> cn = base; ld w = 1; std::vector<ld> u(N), du(N), d(N); for (index_t i = 0; i < N; ++i) { bool hi = k2 >> i & 1; cn[i] += hi; d[i] = f[i] - hi; ld s = f[i], e = s * s * s * (s * (6 * s - 15) + 10), de = 30 * s * s * (1 - s) * (1 - s); u[i] = hi ? e : 1 - e; du[i] = hi ? de : -de; w *= u[i]; }
            V corner = lat(cn); auto cg = cp.gradient(corner); c.check(cg.first == 0 && cp.eval(corner) == 0, "zero-at-lattice"); ld dot = 0, m2 = 0; for (index_t i = 0; i < N; ++i) { ld g = at(cg.second, i); dot += d[i] * g; m2 += g * g; } c.check(N == 1 ? m2 <= 1 : fabsl(m2 - 1) < 64 * eps, "lattice-gradient-size", [&](auto& o) { o << (double)m2; });
            val += w * dot; big += fabsl(dot); for (index_t i = 0; i < N; ++i) { ld others = du[i]; for (index_t j = 0; j < N; ++j) if (j != i) others *= u[j]; grad[i] += w * at(cg.second, i) + others * dot; } }
        ld tol = 64 * (1 << N) * eps * (1 + big); c.check(fabsl(got - val) <= tol && fabsl(gr.first - val) <= tol, "value", [&](auto& o) { o << (double)got << ", with gradient " << (double)gr.first << ", expected " << (double)val << " at"; for (T z : x) o << " " << (double)z; });
        ld ge = 0; for (index_t i = 0; i < N; ++i) ge = std::max(ge, at(gr.second, i) == at(gr.second, i) ? fabsl(at(gr.second, i) - grad[i]) : INFINITY); c.check(ge <= 4 * tol, "gradient", [&](auto& o) { o << "off by " << (double)ge << " at"; for (T z : x) o << " " << (double)z; });
        if (!dflt) c.check(q.eval(pt) == got && q.gradient(pt).second == gr.second, "same-seed"); c.check(cp.eval(pt) == got, "repeatable"); { P cpy = p; c.check(cpy.eval(pt) == got, "copy"); } if (!lattice && r.eval(pt) != got) differs = true;
        c.cover(lattice ? "lattice" : "between"); bool neg = false; for (T z : x) neg |= z < 0; if (neg) c.cover("negative"); if (R > 1e6L) c.cover("far"); bool anyl = false; for (ld z : f) anyl |= z == 0; if (anyl && !lattice) c.cover("on-cell-face"); c.cover("corners", C);
    }
    if (c.rng.chance(.2)) { // gradients vary over the lattice and between seeds
        std::vector<std::vector<ld>> seen; for (int k = 0; k < 200; ++k) { std::vector<ld> b; for (index_t i = 0; i < N; ++i) b.push_back(c.rng.range(-100000, 100000)); V g = cp.gradient(lat(b)).second; std::vector<ld> s; for (index_t i = 0; i < N; ++i) s.push_back(at(g, i)); seen.push_back(s); } std::sort(seen.begin(), seen.end()); size_t n = std::unique(seen.begin(), seen.end()) - seen.begin(); seen.resize(n); c.check(n >= 60, "lattice-gradients-vary", [&](auto& o) { o << n << " distinct of 200"; }); c.maximum("distinct-gradients", n); c.cover("variety"); if (N > 1 || true) { for (index_t i = 0; i < N; ++i) { ld mn = 1, mx = -1; for (auto& s : seen) mn = std::min(mn, s[i]), mx = std::max(mx, s[i]); c.check(mn < -.5L && mx > .5L, "lattice-gradients-spread", [&](auto& o) { o << (double)mn << " to " << (double)mx; }); } }
    }
    if (differs) c.cover("seed-matters"); c.nontrivial(seed);
}
TSUITE("double-1", 2000, 100000, (noise<double, 1>)) TSUITE("double-2", 1500, 100000, (noise<double, 2>)) TSUITE("double-3", 1000, 60000, (noise<double, 3>)) TSUITE("double-4", 500, 30000, (noise<double, 4>)) TSUITE("float-1", 2000, 100000, (noise<float, 1>)) TSUITE("float-2", 1500, 100000, (noise<float, 2>)) TSUITE("float-3", 1000, 60000, (noise<float, 3>))
