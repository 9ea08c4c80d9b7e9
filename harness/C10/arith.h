#pragma once
#include "vh.h"
#include <geomc/linalg/Vec.h>
using namespace vh; using namespace geom;
typedef long double ld;
// ---- arithmetic, elementwise: exactly the scalar operation on each element ----
template <class T> T rnd(Ctx& c) { if constexpr (std::is_integral<T>::value) return c.rng.chance(.2) ? (T)c.rng.range(-2, 2) : (T)c.rng.range(-3000, 3000); else return c.rng.chance(.15) ? (T)c.rng.range(-2, 2) : c.rng.chance(.2) ? (T)(c.rng.range(-20, 20) * .5) : (T)c.rng.logmag(-3, 3); }
template <class V> V rv(Ctx& c) { V v; for (int i = 0; i < V::DIM; ++i) v[i] = rnd<typename V::elem_t>(c); return v; }
template <class V> u64 hv(const V& v) { u64 h = V::DIM; for (int i = 0; i < V::DIM; ++i) h = hcomb(h, hval(v[i])); return h; }
template <class V> std::string sv(const V& v) { return str([&](auto& o) { o << "("; for (int i = 0; i < V::DIM; ++i) o << (i ? ", " : "") << v[i]; o << ")"; }); }
#define EACH(G, W, NAME) { auto g_ = (G); bool ok_ = true; for (int i = 0; i < N; ++i) ok_ = ok_ && g_[i] == (T)(W); c.check(ok_, NAME, [&](auto& o) { o << sv(g_); }); }
template <class T, index_t N> void arith(Ctx& c) {
    typedef Vec<T, N> V; constexpr bool I = std::is_integral<T>::value;
    const V a = rv<V>(c), b = rv<V>(c); T s = rnd<T>(c); if (s == 0) s = 3;
    c.note = str([&](auto& o) { o << sv(a) << " " << sv(b) << " " << s; });
    EACH(a + b, a[i] + b[i], "+"); EACH(a - b, a[i] - b[i], "-"); EACH(-a, -a[i], "neg"); EACH(a.add(b), a[i] + b[i], "add"); EACH(a.sub(b), a[i] - b[i], "sub");
    EACH(a * s, a[i] * s, "*s"); EACH(s * a, s * a[i], "s*"); EACH(a * b, a[i] * b[i], "*"); EACH(a.scale(b), a[i] * b[i], "scale"); EACH(a.scale(s), a[i] * s, "scale-s");
    EACH(a / s, a[i] / s, "/s");
    { V d = b; for (int i = 0; i < N; ++i) if (d[i] == 0) d[i] = 1; EACH(a / d, a[i] / d[i], "/"); EACH(s / d, s / d[i], "s/"); }
    { V t = a; V& r = (t += b); EACH(t, a[i] + b[i], "+="); c.check(&r == &t, "+=returns"); t = a; t -= b; EACH(t, a[i] - b[i], "-="); t = a; t *= s; EACH(t, a[i] * s, "*=s"); t = a; t *= b; EACH(t, a[i] * b[i], "*="); t = a; t /= s; EACH(t, a[i] / s, "/=s");
      t = a; t += t; EACH(t, a[i] + a[i], "+=self"); t = a; t -= t; c.check(t.is_zero(), "-=self"); t = a; t *= t; EACH(t, a[i] * a[i], "*=self"); t = a; t *= t[N - 1]; EACH(t, a[i] * a[N - 1], "*=own element"); t = a; if (t[0] != 0) { t /= t[0]; EACH(t, a[i] / a[0], "/=own element"); } }
    EACH(a.abs(), std::abs(a[i]), "abs"); EACH(a.min(b), std::min(a[i], b[i]), "min"); EACH(a.max(b), std::max(a[i], b[i]), "max");
    EACH(std::min(a, b), std::min(a[i], b[i]), "std-min"); EACH(std::max(a, b), std::max(a[i], b[i]), "std-max"); EACH(std::abs(a), std::abs(a[i]), "std-abs");
    { V lo = a.min(b), hi = a.max(b), v = rv<V>(c); auto k = v.clamp(lo, hi); EACH(k, v[i] < lo[i] ? lo[i] : v[i] > hi[i] ? hi[i] : v[i], "clamp"); }
    if constexpr (!I) { EACH(a.floor(), std::floor(a[i]), "floor"); EACH(a.ceil(), std::ceil(a[i]), "ceil"); EACH(a.round(), std::round(a[i]), "round"); EACH(std::floor(a), std::floor(a[i]), "std-floor"); EACH(std::ceil(a), std::ceil(a[i]), "std-ceil");
        V p = a.abs(); for (int i = 0; i < N; ++i) if (p[i] == 0) p[i] = 2; const T E = 4 * std::numeric_limits<T>::epsilon();
        auto cl = [&](const V& g, auto f, const char* w) { bool ok = true; for (int i = 0; i < N; ++i) { ld e = f((ld)p[i]); ok = ok && (fabsl(g[i] - e) <= E * fabsl(e)); } c.check(ok, w, [&](auto& o) { o << sv(g); }); };
        auto ca = [&](const V& g, auto f, const char* w) { bool ok = true; for (int i = 0; i < N; ++i) { ld e = f((ld)p[i]); ok = ok && (fabsl(g[i] - e) <= E * (fabsl(e) + 1)); } c.check(ok, w, [&](auto& o) { o << sv(g); }); };
        cl(std::sqrt(p), [](ld x) { return sqrtl(x); }, "std-sqrt"); ca(std::sin(p), [](ld x) { return sinl(x); }, "std-sin"); ca(std::cos(p), [](ld x) { return cosl(x); }, "std-cos"); cl(std::tan(p), [](ld x) { return tanl(x); }, "std-tan"); ca(std::log(p), [](ld x) { return logl(x); }, "std-log");
        { V q; for (int i = 0; i < N; ++i) q[i] = c.rng.uniform(-20, 20); bool ok = true; auto g = std::exp(q); for (int i = 0; i < N; ++i) ok = ok && fabsl(g[i] - expl(q[i])) <= E * expl(q[i]); c.check(ok, "std-exp"); }
        T m = c.rng.unit(); EACH(a.mix(b, 0), a[i], "mix-0"); EACH(a.mix(b, 1), b[i], "mix-1"); auto x = a.mix(b, m); bool ok = true; for (int i = 0; i < N; ++i) ok = ok && fabsl(x[i] - ((1 - (ld)m) * a[i] + (ld)m * b[i])) <= E * (std::abs(a[i]) + std::abs(b[i])); c.check(ok, "mix"); }
    // reductions and searches
    { T lo = a[0], hi = a[0]; for (int i = 1; i < N; ++i) { lo = a[i] < lo ? a[i] : lo; hi = a[i] > hi ? a[i] : hi; } c.eq(a.min(), lo, "min-element"); c.eq(a.max(), hi, "max-element");
      index_t x = a.argmax(), y = a.argmin(); bool ok = x >= 0 && x < N && y >= 0 && y < N; for (int i = 0; ok && i < N; ++i) ok = std::abs(a[i]) <= std::abs(a[x]) && std::abs(a[i]) >= std::abs(a[y]); c.check(ok, "argmax-argmin", [&](auto& o) { o << x << " " << y; });
      bool z = true; for (int i = 0; i < N; ++i) z = z && a[i] == 0; c.check(a.is_zero() == z && V().is_zero() && (a - a).is_zero() && V((T)0) == V::zeros && V((T)1) == V::ones && V::unit_x[0] == 1 && V::unit_x.mag2() == 1, "zero"); { V t; t[c.rng.below(N)] = 1; c.check(!t.is_zero(), "one-nonzero"); } }
    { V t = a; c.check(t == a && !(t != a), "equal"); int k = c.rng.below(N); t[k] += 1; c.check(t != a && !(t == a), "unequal"); c.check(a.size() == N && a.end() - a.begin() == N, "size"); }
    // iteration, construction, conversion
    { T arr[N]; for (int i = 0; i < N; ++i) arr[i] = a[i]; EACH(V(arr), a[i], "from-array"); EACH(V(s), s, "fill"); V t; for (T& x : t) x = s; EACH(t, s, "range-for"); int i0 = 0; bool ok = true; for (const T& x : a) ok = ok && x == a[i0] && &x == &a.get(i0) && &x == a.begin() + i0, ++i0; c.check(ok && i0 == N, "const-iteration"); t.get(N - 1) = 5; *t.begin() = 7; c.check(t[0] == 7 && (N == 1 || t[N - 1] == 5), "write-through"); }
    { auto up = a.template resized<N + 2>(); bool ok = up.size() == N + 2; for (int i = 0; i < N + 2; ++i) ok = ok && up[i] == (i < N ? a[i] : (T)0); c.check(ok, "grown"); auto dn = a.template resized<(N > 2 ? N - 1 : 2)>(); ok = true; for (int i = 0; i < dn.size(); ++i) ok = ok && dn[i] == a[i]; c.check(ok, "shrunk"); T one = a.template resized<1>(); c.eq(one, a[0], "resized-to-scalar"); }
    { auto d = (Vec<long double, N>)a; auto f = (Vec<float, N>)a; auto z = (Vec<long, N>)a; bool ok = true; for (int i = 0; i < N; ++i) ok = ok && d[i] == (long double)a[i] && f[i] == (float)a[i] && z[i] == (long)a[i]; c.check(ok, "cast"); }
    if constexpr (N >= 3) { Vec<T, N - 1> h = a.template resized<N - 1>(); V t(h, a[N - 1]); c.check(t == a, "append"); }
    if constexpr (N == 2) { V t(a[0], a[1]); c.check(t == a && t.x == a[0] && t.y == a[1] && &t.x == &t.s && &t.x == &t.row && &t.y == &t.t && &t.y == &t.col, "names"); V u{a[0], a[1]}; c.check(u == a, "braces"); EACH(a.add(b[0], b[1]), a[i] + b[i], "add-2"); EACH(a.sub(b[0], b[1]), a[i] - b[i], "sub-2"); EACH(a.scale(b[0], b[1]), a[i] * b[i], "scale-2"); c.check(a.reflected_x() == V(-a[0], a[1]) && a.reflected_y() == V(a[0], -a[1]) && a.left_perpendicular() == V(-a[1], a[0]) && a.right_perpendicular() == V(a[1], -a[0]) && V::X_AXIS == V(1, 0) && V::Y_AXIS == V(0, 1), "reflected"); }
    if constexpr (N == 3) { V t(a[0], a[1], a[2]); c.check(t == a && t.z == a[2] && &t.x == &t.s && &t.x == &t.r && &t.y == &t.t && &t.y == &t.g && &t.z == &t.u && &t.z == &t.b && &t.x == &t[0] && &t.y == &t[1] && &t.z == &t[2], "names"); V u = {a[0], a[1], a[2]}; c.check(u == a && V(Vec<T, 2>(a[0], a[1]), a[2]) == a, "braces"); EACH(a.add(b[0], b[1], b[2]), a[i] + b[i], "add-3"); EACH(a.sub(b[0], b[1], b[2]), a[i] - b[i], "sub-3"); EACH(a.scale(b[0], b[1], b[2]), a[i] * b[i], "scale-3"); c.check(a.reflected_x() == V(-a[0], a[1], a[2]) && a.reflected_y() == V(a[0], -a[1], a[2]) && a.reflected_z() == V(a[0], a[1], -a[2]) && V::X_AXIS == V(1, 0, 0) && V::Y_AXIS == V(0, 1, 0) && V::Z_AXIS == V(0, 0, 1), "reflected"); }
    if constexpr (N == 4) { V t(a[0], a[1], a[2], a[3]); c.check(t == a && t.w == a[3] && &t.w == &t.v && &t.w == &t.a && &t.z == &t.u && &t.z == &t.b && &t.y == &t.t && &t.y == &t.g && &t.x == &t.s && &t.x == &t.r && &t.w == &t[3], "names"); c.check(V(Vec<T, 2>(a[0], a[1]), a[2], a[3]) == a && V(Vec<T, 3>(a[0], a[1], a[2]), a[3]) == a, "parts"); EACH(a.add(b[0], b[1], b[2], b[3]), a[i] + b[i], "add-4"); EACH(a.sub(b[0], b[1], b[2], b[3]), a[i] - b[i], "sub-4"); EACH(a.scale(b[0], b[1], b[2], b[3]), a[i] * b[i], "scale-4"); c.check(V::X_AXIS == V(1, 0, 0, 0) && V::Y_AXIS == V(0, 1, 0, 0) && V::Z_AXIS == V(0, 0, 1, 0) && V::W_AXIS == V(0, 0, 0, 1), "axes"); }
    if constexpr (N == 5) { V t = {a[0], a[1], a[2], a[3], a[4]}; c.check(t == a, "braces"); }
    // dot product and lengths
    { ld d = 0, m = 0, ad = 0; for (int i = 0; i < N; ++i) { d += (ld)a[i] * b[i]; ad += fabsl((ld)a[i] * b[i]); m += (ld)a[i] * a[i]; }
      ld E = I ? 0 : (N + 1) * (ld)std::numeric_limits<T>::epsilon();
      c.check(fabsl(a.dot(b) - d) <= E * ad, "dot", [&](auto& o) { o << a.dot(b) << " want " << d; }); c.check(fabsl(a.mag2() - m) <= E * m, "mag2", [&](auto& o) { o << a.mag2() << " want " << m; });
      if constexpr (N == 2) c.check(fabsl(a.dot(b[0], b[1]) - d) <= E * ad, "dot-2"); if constexpr (N == 3) c.check(fabsl(a.dot(b[0], b[1], b[2]) - d) <= E * ad, "dot-3"); if constexpr (N == 4) c.check(fabsl(a.dot(b[0], b[1], b[2], b[3]) - d) <= E * ad, "dot-4");
      ld d2 = 0; for (int i = 0; i < N; ++i) d2 += ((ld)a[i] - b[i]) * ((ld)a[i] - b[i]); ld sc = I ? 0 : 2 * E * (d2 + sqrtl(d2) * 0) + 4 * E * sqrtl(d2) * 0; ld slack = I ? 0 : E * (d2 * 4); (void)sc;
      c.check(fabsl(a.dist2(b) - d2) <= slack + (I ? 0 : 1e-30L), "dist2", [&](auto& o) { o << a.dist2(b) << " want " << d2; });
      if constexpr (!I) { c.check(fabsl(a.mag() - sqrtl(m)) <= E * sqrtl(m), "mag"); c.check(fabsl(a.dist(b) - sqrtl(d2)) <= 4 * E * sqrtl(d2) + 1e-30L, "dist"); } }
    c.cover("arith"); c.nontrivial(hcomb(hv(a), hv(b)));
}
