// generators and long-double references for vectors and rotations
#pragma once
#include "vh.h"
#include <geomc/linalg/Vec.h>
using namespace vh; using namespace geom;
typedef long double ld;
static const ld PIL = 3.14159265358979323846264338327950288L;
template <class V> std::string sv(const V& v) { return str([&](auto& o) { o << "("; for (int i = 0; i < V::DIM; ++i) o << (i ? ", " : "") << v[i]; o << ")"; }); }
template <class V> u64 hv(const V& v) { u64 h = V::DIM; for (int i = 0; i < V::DIM; ++i) h = hcomb(h, hval(v[i])); return h; }
template <index_t N, class T> Vec<ld, N> L(const Vec<T, N>& v) { Vec<ld, N> r; for (int i = 0; i < N; ++i) r[i] = v[i]; return r; }
template <index_t N> ld ldot(const Vec<ld, N>& a, const Vec<ld, N>& b) { ld s = 0; for (int i = 0; i < N; ++i) s += a[i] * b[i]; return s; }
template <index_t N> ld lmag(const Vec<ld, N>& a) { return sqrtl(ldot<N>(a, a)); }
template <index_t N> ld ldist(const Vec<ld, N>& a, const Vec<ld, N>& b) { ld s = 0; for (int i = 0; i < N; ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return sqrtl(s); }
inline Vec<ld, 3> lcross(const Vec<ld, 3>& a, const Vec<ld, 3>& b) { return Vec<ld, 3>(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
template <class T, index_t N> Vec<T, N> rdir(Ctx& c, bool scaled = true) { Vec<T, N> v; switch (c.rng.below(4)) { case 0: v[c.rng.below(N)] = c.rng.coin() ? 1 : -1; break; case 1: do for (int i = 0; i < N; ++i) v[i] = c.rng.range(-2, 2); while (v.is_zero()); break; default: do for (int i = 0; i < N; ++i) v[i] = c.rng.gauss(); while (v.is_zero()); } return v * (T)pow(10, !scaled || c.rng.chance(.5) ? 0 : c.rng.uniform(-3, 3)); }
template <class T, index_t N> Vec<T, N> unitv(Ctx& c) { Vec<T, N> v = rdir<T, N>(c); return v / v.mag(); }
template <class T, index_t N> Vec<T, N> related(Ctx& c, const Vec<T, N>& d, std::string& kind) { switch (c.rng.below(6)) { case 0: kind = "same"; return d; case 1: kind = "opposite"; return -d; case 2: kind = "near"; return d + rdir<T, N>(c) * (T)(d.mag() * pow(10, c.rng.uniform(-12, -2))); case 3: kind = "nearly-opposite"; return -d + rdir<T, N>(c) * (T)(d.mag() * pow(10, c.rng.uniform(-12, -2))); default: kind = "general"; return rdir<T, N>(c); } }
#define NEARV(G, W, TOL, NAME) { auto g_ = (G); auto w_ = (W); ld t_ = (TOL); c.check(ldist(L(g_), L(w_)) <= t_, NAME, [&](auto& o) { o << sv(g_) << " want " << sv(w_) << " tolerance " << t_; }); }
inline Vec<ld, 3> rodrigues(const Vec<ld, 3>& v, Vec<ld, 3> n, ld r) { n = n * (1 / lmag<3>(n)); return v * cosl(r) + lcross(n, v) * sinl(r) + n * (ldot<3>(n, v) * (1 - cosl(r))); }
