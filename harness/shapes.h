// reference shapes in long double: exact membership, signed distance and support functions, and generators of library shapes with their references
#pragma once
#include "geo.h"
#include <memory>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Dilated.h>
struct LP { ld a[6]; int n; LP(int n = 0) : n(n) { for (int i = 0; i < n; ++i) a[i] = 0; } LP(std::initializer_list<ld> l) : n(0) { for (ld x : l) a[n++] = x; } LP(const ld* b, const ld* e) : n(0) { while (b != e) a[n++] = *b++; } void assign(int k, ld v) { n = k; for (int i = 0; i < n; ++i) a[i] = v; } void push_back(ld v) { a[n++] = v; } size_t size() const { return n; } ld* begin() { return a; } ld* end() { return a + n; } const ld* begin() const { return a; } const ld* end() const { return a + n; } ld& operator[](int i) { return a[i]; } ld operator[](int i) const { return a[i]; } };
inline LP operator-(LP a, const LP& b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
inline LP operator+(LP a, const LP& b) { for (size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
inline LP operator*(LP a, ld k) { for (auto& x : a) x *= k; return a; }
inline ld dotp(const LP& a, const LP& b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline ld magp(const LP& a) { return sqrtl(dotp(a, a)); }
template <class T, index_t N> LP lp(const Vec<T, N>& v) { LP r((int)N); for (int i = 0; i < N; ++i) r[i] = v[i]; return r; }
template <class T, index_t N> Vec<T, N> tv(const LP& p) { Vec<T, N> v; for (int i = 0; i < N; ++i) v[i] = (T)p[i]; return v; }
inline std::string sp(const LP& p) { std::string s = "("; for (auto x : p) s += (s.size() > 1 ? ", " : "") + str([&](auto& o) { o.precision(17); o << (double)x; }); return s + ")"; }
// gaussian elimination with full pivoting; false if singular
inline bool lsolve(std::vector<LP> a, LP b, LP& x) {
    int n = b.size(); std::vector<int> pc(n); for (int i = 0; i < n; ++i) pc[i] = i;
    for (int k = 0; k < n; ++k) { int r = k, q = k; for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (fabsl(a[i][j]) > fabsl(a[r][q])) { r = i; q = j; } if (a[r][q] == 0) return false; std::swap(a[r], a[k]); std::swap(b[r], b[k]); for (int i = 0; i < n; ++i) std::swap(a[i][q], a[i][k]); std::swap(pc[q], pc[k]); for (int i = k + 1; i < n; ++i) { ld f = a[i][k] / a[k][k]; for (int j = k; j < n; ++j) a[i][j] -= f * a[k][j]; b[i] -= f * b[k]; } }
    LP y(n); for (int i = n - 1; i >= 0; --i) { ld s = b[i]; for (int j = i + 1; j < n; ++j) s -= a[i][j] * y[j]; y[i] = s / a[i][i]; } x.assign(n, 0); for (int i = 0; i < n; ++i) x[pc[i]] = y[i]; return true;
}
struct RefShape { // sdf: exact signed distance where exact(); otherwise its sign is that of membership and its magnitude at most the distance
    int n = 0; virtual ~RefShape() {} virtual ld sdf(const LP& p) const = 0; virtual ld support(const LP& d) const = 0; virtual LP inner() const = 0; // a point well inside
    virtual ld extent() const = 0; // largest coordinate magnitude that enters the computation
    virtual ld thin() const = 0;   // smallest width
    virtual bool exact() const { return true; } virtual bool vague(const LP& p, ld tol) const { return false; } /* no definite nearest direction, to rounding */ virtual bool in(const LP& p) const { return sdf(p) <= 0; } virtual std::string show() const = 0;
};
typedef std::unique_ptr<RefShape> RP;
struct RSphere : RefShape { LP c; ld r; bool vague(const LP& p, ld tol) const override { return magp(p - c) <= tol; } RSphere(LP c, ld r) : c(c), r(r) { n = c.size(); } ld sdf(const LP& p) const override { return magp(p - c) - r; } ld support(const LP& d) const override { return dotp(c, d) + r * magp(d); } LP inner() const override { return c; } ld extent() const override { ld m = r; for (auto x : c) m = std::max(m, fabsl(x) + r); return m; } ld thin() const override { return r; } std::string show() const override { return "sphere " + sp(c) + " r " + sp({r}); } };
inline ld boxsdf(const LP& q) { ld in = -1e300L, out = 0; for (auto x : q) { in = std::max(in, x); if (x > 0) out += x * x; } return out > 0 ? sqrtl(out) : in; }
struct RBox : RefShape { LP lo, hi; RBox(LP l, LP h) : lo(l), hi(h) { n = l.size(); } ld sdf(const LP& p) const override { LP q(n); for (int i = 0; i < n; ++i) q[i] = std::max(lo[i] - p[i], p[i] - hi[i]); return boxsdf(q); } ld support(const LP& d) const override { ld s = 0; for (int i = 0; i < n; ++i) s += std::max(lo[i] * d[i], hi[i] * d[i]); return s; } LP inner() const override { return (lo + hi) * .5L; } ld extent() const override { ld m = 0; for (int i = 0; i < n; ++i) m = std::max({m, fabsl(lo[i]), fabsl(hi[i])}); return m; } ld thin() const override { ld m = 1e300L; for (int i = 0; i < n; ++i) m = std::min(m, hi[i] - lo[i]); return m; } std::string show() const override { return "rect " + sp(lo) + ".." + sp(hi); } };
struct RSeg : RefShape { LP a, b; ld r; bool caps; bool vague(const LP& p, ld tol) const override { return caps && sdf(p) + r <= tol; } RSeg(LP a, LP b, ld r, bool c) : a(a), b(b), r(r), caps(c) { n = a.size(); }
    ld sdf(const LP& p) const override { LP ax = b - a, v = p - a; ld L2 = dotp(ax, ax), s = L2 == 0 ? 0 : dotp(v, ax) / L2, L = sqrtl(L2); if (caps) { ld t = std::min<ld>(1, std::max<ld>(0, s)); return magp(v - ax * t) - r; } ld rad = magp(v - ax * s); return boxsdf({std::max(-s * L, (s - 1) * L), rad - r}); }
    ld support(const LP& d) const override { ld m = std::max(dotp(a, d), dotp(b, d)); if (caps) return m + r * magp(d); LP ax = b - a; LP q = d - ax * (dotp(d, ax) / dotp(ax, ax)); return m + r * magp(q); }
    LP inner() const override { return (a + b) * .5L; } ld extent() const override { ld m = r; for (int i = 0; i < n; ++i) m = std::max({m, fabsl(a[i]) + r, fabsl(b[i]) + r}); return m; } ld thin() const override { return caps ? r : std::min(r, magp(b - a)); } std::string show() const override { return (caps ? "capsule " : "cylinder ") + sp(a) + ".." + sp(b) + " r " + sp({r}); } };
struct RExt : RefShape { RP base; ld lo, hi; bool vague(const LP& p, ld tol) const override { return base->vague(LP(p.begin(), p.end() - 1), tol); } RExt(RP b, ld l, ld h) : base(std::move(b)), lo(l), hi(h) { n = base->n + 1; } ld sdf(const LP& p) const override { LP q(p.begin(), p.end() - 1); return boxsdf({base->sdf(q), std::max(lo - p[n - 1], p[n - 1] - hi)}); } ld support(const LP& d) const override { LP q(d.begin(), d.end() - 1); return base->support(q) + std::max(lo * d[n - 1], hi * d[n - 1]); } LP inner() const override { LP q = base->inner(); q.push_back((lo + hi) / 2); return q; } ld extent() const override { return std::max({base->extent(), fabsl(lo), fabsl(hi)}); } ld thin() const override { return std::min(base->thin(), hi - lo); } bool exact() const override { return base->exact(); } std::string show() const override { return "extruded[" + base->show() + "] " + sp({lo, hi}); } };
struct RDil : RefShape { RP base; ld r; bool vague(const LP& p, ld tol) const override { return base->vague(p, tol) || fabsl(base->sdf(p)) <= 1e3L * tol; } RDil(RP b, ld r) : base(std::move(b)), r(r) { n = base->n; } ld sdf(const LP& p) const override { return base->sdf(p) - r; } ld support(const LP& d) const override { return base->support(d) + r * magp(d); } LP inner() const override { return base->inner(); } ld extent() const override { return base->extent() + r; } ld thin() const override { return base->thin() + r; } bool exact() const override { return base->exact(); } std::string show() const override { return "dilated[" + base->show() + "] " + sp({r}); } };
struct RFru : RefShape { RP base; ld lo, hi; RFru(RP b, ld l, ld h) : base(std::move(b)), lo(l < 0 && h > 0 ? 0 : l), hi(h) { n = base->n + 1; }
    ld sdf(const LP& p) const override { ld h = p[n - 1], slab = std::max(lo - h, h - hi); LP q(p.begin(), p.end() - 1); if (h == 0) { ld m = magp(q); return std::max(slab, m / (2 + base->extent() * 4)); } ld k = 1 / (2 + base->extent() * 4); return std::max(slab * k, base->sdf(q * (1 / h)) * fabsl(h) * k); }
    ld support(const LP& d) const override { LP q(d.begin(), d.end() - 1); auto at = [&](ld h) { return fabsl(h) * base->support(h < 0 ? q * -1 : q) + h * d[n - 1]; }; return std::max(at(lo), at(hi)); }
    LP inner() const override { ld h = (lo + hi) / 2; LP q = base->inner() * h; q.push_back(h); return q; } ld extent() const override { ld m = std::max(fabsl(lo), fabsl(hi)); return m * std::max<ld>(1, base->extent()); } ld thin() const override { return std::min(hi - lo, base->thin() * fabsl(lo + hi) / 2); } bool exact() const override { return false; } std::string show() const override { return "frustum[" + base->show() + "] " + sp({lo, hi}); } };
struct RXf : RefShape { RP base; std::vector<LP> m, mi; LP t; ld smin, smax; // x -> m x + t
    RXf(RP b, std::vector<LP> m_, LP t_) : base(std::move(b)), m(m_), t(t_) { n = base->n; mi.assign(n, LP(n)); for (int k = 0; k < n; ++k) { LP e(n), x; e[k] = 1; if (!lsolve(m, e, x)) abort(); for (int i = 0; i < n; ++i) mi[i][k] = x[i]; } ld f = 0, g = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { f += mi[i][j] * mi[i][j]; g += m[i][j] * m[i][j]; } smin = 1 / sqrtl(f); smax = sqrtl(g); }
    LP inv(const LP& p) const { LP q(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[i] += mi[i][j] * (p[j] - t[j]); return q; } LP fwd(const LP& p) const { LP q = t; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[i] += m[i][j] * p[j]; return q; }
    ld sdf(const LP& p) const override { return base->sdf(inv(p)) * smin; } ld support(const LP& d) const override { LP q(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[i] += m[j][i] * d[j]; return base->support(q) + dotp(t, d); }
    bool in(const LP& p) const override { return base->in(inv(p)); } LP inner() const override { return fwd(base->inner()); } ld extent() const override { ld m = 0; for (auto x : t) m = std::max(m, fabsl(x)); return m + smax * base->extent() * (smax / smin); } ld thin() const override { return base->thin() * smin; } bool exact() const override { return false; } std::string show() const override { std::string s = "transformed[" + base->show() + "] by"; for (auto& r : m) s += " " + sp(r); return s + " + " + sp(t); } };
struct RSim : RefShape { std::vector<LP> v; RSim(std::vector<LP> v) : v(v) { n = v[0].size(); }
    // nearest point of the affine hull of the chosen vertices, if its barycentric coordinates are all nonnegative
    static bool proj(const std::vector<LP>& w, const LP& p, LP& out, LP* bary = nullptr) { int k = w.size() - 1; LP x; if (k) { std::vector<LP> g(k, LP(k)); LP b(k); for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) g[i][j] = dotp(w[i + 1] - w[0], w[j + 1] - w[0]); b[i] = dotp(w[i + 1] - w[0], p - w[0]); } if (!lsolve(g, b, x)) return false; } ld s = 1; out = w[0]; bool in = true; for (int i = 0; i < k; ++i) { s -= x[i]; out = out + (w[i + 1] - w[0]) * x[i]; in = in && x[i] >= 0; } if (bary) { *bary = x; LP y; y.push_back(s); for (ld z : x) y.push_back(z); *bary = y; } return in && s >= 0; }
    LP nearest(const LP& p, bool surface, std::vector<int>* which = nullptr) const { int k = v.size(); ld best = 1e300L; LP out; for (int mask = 1; mask < (1 << k) - (surface && k == n + 1 ? 1 : 0); ++mask) { std::vector<LP> w; for (int i = 0; i < k; ++i) if (mask >> i & 1) w.push_back(v[i]); LP q; if (proj(w, p, q)) { ld d = magp(q - p); if (d < best) { best = d; out = q; if (which) { which->clear(); for (int i = 0; i < k; ++i) if (mask >> i & 1) which->push_back(i); } } } } return out; }
    bool in(const LP& p) const override { return inside(p); } bool inside(const LP& p) const { if ((int)v.size() < n + 1) return false; LP q; return proj(v, p, q); }
    ld sdf(const LP& p) const override { if ((int)v.size() < n + 1) return magp(nearest(p, true) - p); bool in = inside(p); return magp(nearest(p, true) - p) * (in ? -1 : 1); } ld support(const LP& d) const override { ld m = -1e300L; for (auto& x : v) m = std::max(m, dotp(x, d)); return m; } LP inner() const override { LP s(n); for (auto& x : v) s = s + x; return s * (1.L / v.size()); } ld extent() const override { ld m = 0; for (auto& x : v) for (auto y : x) m = std::max(m, fabsl(y)); return m; }
    ld thin() const override { return v.size() == size_t(n + 1) ? std::max<ld>(-sdf(inner()), 1e-30L) : 0; } std::string show() const override { std::string s = "simplex"; for (auto& x : v) s += " " + sp(x); return s; } };

inline ld rsize(Ctx& c) { return c.rng.chance(.25) ? (ld)c.rng.range(1, 8) / 2 : fabsl(c.rng.logmag(-1, 1)); }
template <class T, index_t N> Vec<T, N> rpos(Ctx& c) { Vec<T, N> v; double m = c.rng.chance(.15) ? 200 : 4; bool lat = c.rng.chance(.3); for (int i = 0; i < N; ++i) v[i] = lat ? (T)c.rng.range(-4, 4) : c.rng.chance(.1) ? (T)0 : (T)c.rng.uniform(-m, m); return v; }
template <class S> struct Gen;
template <class T, index_t N> struct Gen<Sphere<T, N>> { static Sphere<T, N> make(Ctx& c, RP& r) { Sphere<T, N> s(rpos<T, N>(c), (T)rsize(c)); r.reset(new RSphere(lp(s.center), s.r)); return s; } };
template <class T, index_t N> struct Gen<Rect<T, N>> { static Rect<T, N> make(Ctx& c, RP& r) { Vec<T, N> p = rpos<T, N>(c), q; for (int i = 0; i < N; ++i) q[i] = p[i] + (T)rsize(c); Rect<T, N> s(p, q); r.reset(new RBox(lp(s.lo), lp(s.hi))); return s; } };
template <class T> struct Gen<Rect<T, 1>> { static Rect<T, 1> make(Ctx& c, RP& r) { T a = rpos<T, 2>(c)[0]; Rect<T, 1> s(a, a + (T)rsize(c)); r.reset(new RBox({s.lo}, {s.hi})); return s; } };
template <class T, index_t N> Vec<T, N> axisv(Ctx& c) { Vec<T, N> a = rdir<T, N>(c, false); return a * (T)(rsize(c) / lmag<N>(L(a))); }
template <class T, index_t N> struct Gen<Cylinder<T, N>> { static Cylinder<T, N> make(Ctx& c, RP& r) { Vec<T, N> p = rpos<T, N>(c); Cylinder<T, N> s(p, p + axisv<T, N>(c), (T)rsize(c)); if (c.rng.chance(.05)) s = Cylinder<T, N>((T)rsize(c)); r.reset(new RSeg(lp(s.p0), lp(s.p1), s.radius, false)); return s; } };
template <class T, index_t N> struct Gen<Capsule<T, N>> { static Capsule<T, N> make(Ctx& c, RP& r) { Vec<T, N> p = rpos<T, N>(c); Capsule<T, N> s(p, p + axisv<T, N>(c), (T)rsize(c)); r.reset(new RSeg(lp(s.p0), lp(s.p1), s.radius, true)); return s; } };
template <class T, index_t N> struct Gen<Simplex<T, N>> { static Simplex<T, N> make(Ctx& c, RP& r) { for (;;) { Simplex<T, N> s; std::vector<LP> v; if (c.rng.chance(.1)) { s = Simplex<T, N>::standard_simplex(); for (int i = 0; i <= N; ++i) v.push_back(lp(s.pts[i])); } else { Vec<T, N> o = rpos<T, N>(c); ld k = rsize(c); for (int i = 0; i <= N; ++i) { Vec<T, N> d; bool lat = c.rng.chance(.3); for (int j = 0; j < N; ++j) d[j] = lat ? (T)c.rng.range(-2, 2) : (T)(c.rng.gauss() * k); s.insert(o + d); v.push_back(lp(s.pts[i])); } } r.reset(new RSim(v)); ld w = 0; for (auto& x : v) w = std::max(w, magp(x - v[0])); if (w > 0 && r->thin() > .05L * w) return s; } } };
template <class S> struct Gen<Extruded<S>> { static Extruded<S> make(Ctx& c, RP& r) { typedef typename S::elem_t T; RP b; S base = Gen<S>::make(c, b); T h = rpos<T, 2>(c)[0], k = h + (T)rsize(c); Extruded<S> s = c.rng.coin() ? Extruded<S>(base, h, k) : c.rng.coin() ? Extruded<S>(base, Rect<T, 1>(h, k)) : c.rng.coin() ? extrude(base, k, h) : Extruded<S>(base, k, h); if (c.rng.chance(.1)) { s = Extruded<S>(base); h = 0; k = 1; } r.reset(new RExt(std::move(b), h, k)); return s; } };
template <class S> struct Gen<Dilated<S>> { static Dilated<S> make(Ctx& c, RP& r) { typedef typename S::elem_t T; RP b; S base = Gen<S>::make(c, b); T k = c.rng.chance(.1) ? (T)0 : (T)rsize(c); Dilated<S> s = k == 0 && c.rng.coin() ? Dilated<S>(base) : c.rng.coin() ? Dilated<S>(base, k) : dilate(base, k); if (c.rng.chance(.2)) { T e = (T)rsize(c), o = k; s = dilate(Dilated<S>(base, o), e); k = o + e; } r.reset(new RDil(std::move(b), k)); return s; } };
template <class S> struct Gen<Frustum<S>> { static Frustum<S> make(Ctx& c, RP& r) { typedef typename S::elem_t T; RP b; S base = Gen<S>::make(c, b); T h, k; switch (c.rng.below(5)) { case 0: h = 0; k = (T)rsize(c); break; case 1: k = 0; h = -(T)rsize(c); break; case 2: h = -(T)rsize(c); k = (T)rsize(c); break; case 3: k = -(T)rsize(c); h = k - (T)rsize(c); break; default: h = (T)rsize(c); k = h + (T)rsize(c); } Frustum<S> s = c.rng.coin() ? Frustum<S>(base, Rect<T, 1>(h, k)) : c.rng.coin() ? frustum(base, k, h) : Frustum<S>(base, h, k); c.cover(h < 0 && k > 0 ? "frustum-spanning" : k <= 0 ? "frustum-below" : h == 0 ? "frustum-tip" : "frustum-above"); r.reset(new RFru(std::move(b), h, k)); return s; } };
// a transform of moderate condition, as the library stores it
template <class T, index_t N> AffineTransform<T, N> rxf(Ctx& c) {
    AffineTransform<T, N> x; for (int k = 0, n = c.rng.range(1, 3); k < n; ++k) { AffineTransform<T, N> e; switch (c.rng.below(4)) { case 0: { Vec<T, N> s; for (int i = 0; i < N; ++i) s[i] = (T)((c.rng.chance(.2) ? -1 : 1) * (c.rng.coin() ? (ld)c.rng.range(1, 4) / 2 : fabsl(c.rng.logmag(-.5, .5)))); e = scale(s); break; } case 1: if constexpr (N == 3) { e = rotation(rdir<T, 3>(c), (T)c.rng.uniform(-4, 4)); break; } else if constexpr (N == 2) { e = rotation((T)c.rng.uniform(-4, 4)); break; } [[fallthrough]]; case 2: { SimpleMatrix<T, N, N> m; m.set_identity(); int i = c.rng.below(N), j = (i + 1 + c.rng.below(N - 1)) % N; m(i, j) = (T)(c.rng.range(-4, 4) * .25); e = transformation(m); break; } default: e = translation(rpos<T, N>(c)); } x = e * x; } return x;
}
template <class T, index_t N> RP xfref(RP b, const AffineTransform<T, N>& x) { std::vector<LP> m(N, LP(N)); LP t(N); for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) m[i][j] = x.mat(i, j); t[i] = x.mat(i, N); } return RP(new RXf(std::move(b), m, t)); }
template <class S> struct Gen<Oriented<S>> { static Oriented<S> make(Ctx& c, RP& r) { typedef typename S::elem_t T; RP b; S base = Gen<S>::make(c, b); auto x = rxf<T, S::N>(c); r = xfref<T, S::N>(std::move(b), x); return Oriented<S>(base, x); } };

template <class T> ld tolr(const RefShape& r, const LP& p, ld k = 64) { ld e = r.extent(); for (auto x : p) e = std::max(e, fabsl(x)); return k * std::numeric_limits<T>::epsilon() * e * std::max<ld>(1, e / r.thin()); }
inline LP rdirl(Ctx& c, int n) { LP d(n); switch (c.rng.below(4)) { case 0: d[c.rng.below(n)] = c.rng.coin() ? 1 : -1; break; case 1: do for (int i = 0; i < n; ++i) d[i] = c.rng.range(-1, 1); while (magp(d) == 0); break; default: do for (int i = 0; i < n; ++i) d[i] = c.rng.gauss(); while (magp(d) == 0); } return d; }
// width of the shape across all axes, and a point of the shape's bounding box scaled by k
inline LP boxpt(Ctx& c, const RefShape& r, ld k) { LP p(r.n); for (int i = 0; i < r.n; ++i) { LP e(r.n); e[i] = 1; ld hi = r.support(e); e[i] = -1; ld lo = -r.support(e); p[i] = (lo + hi) / 2 + (hi - lo) / 2 * k * c.rng.uniform(-1, 1); } return p; }
// a point on the surface, by bisection from inside along a random direction
inline LP surfpt(Ctx& c, const RefShape& r, LP from, LP d) { d = d * (1 / magp(d)); ld a = 0, b = r.extent() * 4 + magp(from) * 2 + 1; for (int i = 0; i < 64; ++i) { ld m = (a + b) / 2; (r.in(from + d * m) ? a : b) = m; } return from + d * a; }
inline LP insidept(Ctx& c, const RefShape& r) { LP i = r.inner(); LP s = surfpt(c, r, i, rdirl(c, r.n)); return i + (s - i) * (ld)c.rng.uniform(0, .95); }
// a random point of interest relative to the shape; kind says which
template <class T, index_t N> Vec<T, N> probe(Ctx& c, const RefShape& r, std::string& kind) {
    switch (c.rng.below(6)) {
        case 0: kind = "inside"; return tv<T, N>(insidept(c, r));
        case 1: { kind = "near-surface"; LP i = r.inner(), d = rdirl(c, r.n), s = surfpt(c, r, i, d); return tv<T, N>(s + (s - i) * (ld)(c.rng.coin() ? 1 : -1) * (ld)pow(10, c.rng.uniform(-6, -1))); }
        case 2: { kind = "axial"; LP p = r.inner(); int k = c.rng.below(r.n); LP q = boxpt(c, r, 1.7); p[k] = q[k]; return tv<T, N>(p); } // along an axis through the middle
        case 3: { kind = "far"; return tv<T, N>(boxpt(c, r, 8)); }
        default: kind = "box"; return tv<T, N>(boxpt(c, r, 1.4));
    }
}
template <class S> u64 hshape(const RefShape& r) { return hstr(r.show().c_str()); }
