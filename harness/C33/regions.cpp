#include "stat.h"
#include <boost/math/special_functions/beta.hpp>
#include <random>
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
#include <geomc/random/SampleGeometry.h>
using namespace geom; using namespace vh; typedef std::vector<double> DV;
static std::unique_ptr<Random> source(Ctx& c) { u64 s = c.rng.next(); switch (c.rng.below(3)) { case 0: return std::make_unique<LCRand>(s); case 1: return std::make_unique<MTRand>(s); default: return std::make_unique<XoshiroRand>(s); } }
template <class T, index_t N> DV dv(const Vec<T, N>& v) { DV r; for (index_t i = 0; i < N; ++i) r.push_back((double)v[i]); return r; }
static double dot(const DV& a, const DV& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static double mag(const DV& a) { double m = 0; for (double x : a) m = std::max(m, std::abs(x)); if (m == 0) return 0; double s = 0; for (double x : a) s += x / m * (x / m); return m * std::sqrt(s); }
static DV operator*(DV a, double k) { for (double& x : a) x *= k; return a; } static DV operator-(DV a, const DV& b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
static DV rdir(Ctx& c, int n) { DV d(n); do for (double& x : d) x = c.rng.gauss(); while (mag(d) < 1e-3); return d * (1 / mag(d)); }
// distribution of one coordinate of a uniform direction in N dimensions
static double dirp(double t, int N) { double x = std::min(1., std::max(0., (t + 1) / 2)); return boost::math::ibeta((N - 1) / 2., (N - 1) / 2., x); }
template <class T> static double eps() { return std::numeric_limits<T>::epsilon(); }
template <class T, index_t N> Vec<T, N> tvec(const DV& d) { Vec<T, N> v; for (index_t i = 0; i < N; ++i) v[i] = (T)d[i]; return v; }
struct Uni { DV a, b; bool joint(Ctx& c, const char* what) { std::vector<u64> n(64); for (size_t i = 0; i < a.size(); ++i) n[std::min(7, std::max(0, (int)(a[i] * 8))) * 8 + std::min(7, std::max(0, (int)(b[i] * 8)))]++; return chiu(c, n, what); } };
static const int K = 6000;

template <class T, index_t N> void ball(Ctx& c) {
    auto g = source(c); Sampler<T> s(g.get()); int kind = (int)c.rng.below(5); T R = (T)std::abs(c.rng.logmag(-3, 3)), in = (T)(R * (c.rng.chance(.2) ? 0 : c.rng.chance(.2) ? c.rng.uniform(.99, 1) : c.rng.unit())); const char* kn[] = {"unit", "sphere", "ball", "solidball", "shell"}; c.note = str([&](auto& o) { o << kn[kind] << " radius " << R << " inner " << in; });
    DV a1 = rdir(c, N), a2 = rdir(c, N); a2 = a2 - a1 * dot(a1, a2); a2 = a2 * (1 / mag(a2)); Uni u; DV other; bool ok = true; double lim = 0, tol = 8 * N * eps<T>();
    for (int i = 0; i < K && ok; ++i) { DV v; switch (kind) { case 0: v = dv<T, N>(s.template unit<N>()); break; case 1: v = dv<T, N>(s.template unit<N>(R)); break; case 2: v = dv<T, N>(N == 2 && c.rng.coin() ? [&] { if constexpr (N == 2) return s.disk(); else return Vec<T, N>(); }() : s.template solidball<N>()); break; case 3: v = dv<T, N>(N == 2 && c.rng.coin() ? [&] { if constexpr (N == 2) return s.disk(R); else return Vec<T, N>(); }() : s.template solidball<N>(R)); break; default: v = dv<T, N>(s.template shell<N>(in, R)); }
        double r = mag(v), R1 = kind == 0 || kind == 2 ? 1 : (double)R; switch (kind) { case 0: case 1: ok = std::abs(r - R1) <= tol * R1; break; case 2: case 3: ok = r <= R1 * (1 + tol); break; default: ok = r >= in * (1 - tol) && r <= R1 * (1 + tol); } lim = r;
        double k = kind == 4 ? (double)in / R1 : 0; u.b.push_back(kind < 2 ? c.rng.unit() : (std::pow(r / R1, N) - std::pow(k, N)) / (1 - std::pow(k, N))); v = v * (1 / r); u.a.push_back(dirp(dot(v, a1), N)); other.push_back(dirp(dot(v, a2), N)); }
    if (!c.check(ok, "inside", [&](auto& o) { o << "length " << lim; })) return; u.joint(c, "joint"); ks(c, u.a, "direction"); ks(c, other, "direction"); if (kind > 1 && (kind < 4 || in < R * .995)) ks(c, u.b, "radius"); c.cover(kn[kind]); c.nontrivial(hcomb(hval(R), hval(in)));
}
TSUITE("ball/double-2", 60, 3000, (ball<double, 2>)) TSUITE("ball/double-3", 60, 3000, (ball<double, 3>)) TSUITE("ball/double-5", 60, 3000, (ball<double, 5>)) TSUITE("ball/float-3", 60, 3000, (ball<float, 3>)) TSUITE("ball/float-2", 60, 3000, (ball<float, 2>)) TSUITE("ball/float-4", 60, 3000, (ball<float, 4>))

template <class T, index_t N> void boxes(Ctx& c) {
    auto g = source(c); Sampler<T> s(g.get()); Vec<T, N> lo, hi; for (index_t i = 0; i < N; ++i) { lo[i] = (T)c.rng.uniform(-10, 10); hi[i] = (T)(lo[i] + c.rng.uniform(.1, 20)); } int kind = (int)c.rng.below(5); if (kind == 0) { lo = Vec<T, N>((T)0); hi = Vec<T, N>((T)1); }
    if (kind == 3 && N > 3) kind = 1; SampleShape<Rect<T, N>> ss(kind == 4 && c.rng.coin() ? Rect<T, N>(lo - hi, hi) : Rect<T, N>(lo, hi)); ss.param(Rect<T, N>(lo, hi)); std::mt19937_64 mt(c.rng.next()); std::vector<DV> u(N); bool ok = true;
    for (int i = 0; i < K && ok; ++i) { Vec<T, N> v; switch (kind) { case 0: v = s.template box<N>(); break; case 1: v = s.template box<N>(lo, hi); break; case 2: v = s.box(Rect<T, N>(lo, hi)); break; case 3: if constexpr (N == 2) v = s.box(lo[0], lo[1], hi[0], hi[1]); else if constexpr (N == 3) v = s.box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); break; default: v = ss(mt); }
        for (index_t k = 0; k < N; ++k) { double t = kind == 4 ? eps<T>() * (std::abs(lo[k]) + std::abs(hi[k])) : 0; ok = ok && v[k] >= lo[k] - t && v[k] <= hi[k] + t; u[k].push_back(((double)v[k] - lo[k]) / ((double)hi[k] - lo[k])); } }
    if (!c.check(ok, "inside")) return; for (index_t k = 0; k < N; ++k) { Uni j{u[k], u[(k + 1) % N]}; if (N > 1) j.joint(c, "joint"); } for (auto& x : u) ks(c, x, "coordinate"); if (kind == 4) { auto p = ss.param(); c.check(p.lo == lo && p.hi == hi, "param"); } c.cover("box"); c.cover(kind == 4 ? "sample-rect" : "box"); c.nontrivial(hcomb(hval(lo[0]), hval(hi[0])));
}
TSUITE("box/double-2", 40, 2000, (boxes<double, 2>)) TSUITE("box/double-3", 40, 2000, (boxes<double, 3>)) TSUITE("box/float-3", 40, 2000, (boxes<float, 3>)) TSUITE("box/float-5", 40, 2000, (boxes<float, 5>))

template <class T> void cones(Ctx& c) {
    auto g = source(c); Sampler<T> s(g.get()); DV d; int dk = (int)c.rng.below(6); switch (dk) { case 0: d = {0, 0, 1}; break; case 1: d = {0, 0, -1}; break; case 2: { d = {0, 0, 0}; d[c.rng.below(3)] = c.rng.coin() ? 1 : -1; break; } case 3: d = {c.rng.gauss() * 1e-3, c.rng.gauss() * 1e-3, c.rng.coin() ? 1. : -1.}; break; default: d = rdir(c, 3); }
    d = d * std::abs(c.rng.logmag(-2, 2)); Vec<T, 3> dir = tvec<T, 3>(d); d = dv<T, 3>(dir); DV ax = d * (1 / mag(d)); double half = c.rng.chance(.2) ? M_PI : c.rng.chance(.2) ? c.rng.uniform(.01, .1) : c.rng.uniform(.1, 3.1); T R = (T)std::abs(c.rng.logmag(-2, 2)), in = (T)(R * (c.rng.chance(.3) ? 0 : c.rng.uniform(0, .95))); int kind = (int)c.rng.below(4); const char* kn[] = {"cap-z", "cap", "solidcap", "oriented_disk"}; if (kind == 0) ax = {0, 0, 1}; half = (double)(T)half;
    c.note = str([&](auto& o) { o << kn[kind] << " about " << d[0] << " " << d[1] << " " << d[2] << " angle " << half << " radii " << in << " " << R; });
    DV b1 = rdir(c, 3); b1 = b1 - ax * dot(ax, b1); b1 = b1 * (1 / mag(b1)); DV b2 = {ax[1] * b1[2] - ax[2] * b1[1], ax[2] * b1[0] - ax[0] * b1[2], ax[0] * b1[1] - ax[1] * b1[0]};
    DV az, h, rr; bool ok = true; double tol = 64 * eps<T>(), ch = std::cos(half); double bad = 0, floor = 1 - ch;
    // rounding of a cosine near 1 limits how small a cap can be resolved; rotations lose accuracy close to the axis
    double htol = tol + (dk == 3 ? 4e4 * eps<T>() : 0);
    for (int i = 0; i < K && ok; ++i) { DV v; switch (kind) { case 0: v = dv<T, 3>(s.cap((T)half)); break; case 1: v = dv<T, 3>(s.cap(dir, (T)half)); break; case 2: v = dv<T, 3>(s.solidcap(dir, (T)half, in, R)); break; default: v = dv<T, 3>(s.oriented_disk(dir, R)); }
        double r = mag(v), z = dot(v, ax); az.push_back((std::atan2(dot(v, b1), dot(v, b2)) / M_PI + 1) / 2);
        if (kind == 3) { ok = std::abs(z) <= htol * R && r <= R * (1 + tol); bad = z; rr.push_back(r * r / ((double)R * R)); } else { z /= r; double q = kind == 2 ? (double)R : 1; ok = z >= ch - htol && (kind == 2 ? r >= in * (1 - tol) && r <= q * (1 + tol) : std::abs(r - 1) <= tol); bad = z; h.push_back(floor > 0 ? (1 - z) / floor : 0); if (kind == 2) { double k = (double)in / R; rr.push_back((std::pow(r / R, 3) - k * k * k) / (1 - k * k * k)); } } }
    if (!c.check(ok, "inside", [&](auto& o) { o << bad; })) return; if (h.size()) { Uni u{az, h}; u.joint(c, "joint"); } if (h.size() && rr.size()) { Uni u{rr, h}; u.joint(c, "joint"); } if (rr.size()) { Uni u{az, rr}; u.joint(c, "joint"); }
    ks(c, az, "azimuth"); if (h.size()) ks(c, h, "height", htol / floor); if (rr.size()) ks(c, rr, "radius"); c.cover(kn[kind]); if (d[2] < 0 && d[0] == 0 && d[1] == 0 && kind) c.cover("down"); c.nontrivial(hcomb(hval(half), hval(R)));
}
TSUITE("cone/double", 120, 5000, (cones<double>)) TSUITE("cone/float", 120, 5000, (cones<float>))
template <class T> void arcs(Ctx& c) {
    auto g = source(c); Sampler<T> s(g.get()); T lo = (T)c.rng.uniform(-6, 6), hi = (T)(lo + c.rng.uniform(.05, 6.2)), R = (T)std::abs(c.rng.logmag(-2, 2)), in = (T)(R * (c.rng.chance(.3) ? 0 : c.rng.uniform(0, .95))); bool solid = c.rng.coin(); c.note = str([&](auto& o) { o << (solid ? "solidarc " : "arc ") << lo << " .. " << hi << " radii " << in << " " << R; });
    Uni u; bool ok = true; double tol = 32 * eps<T>(), w = (double)hi - lo, k = (double)in / R; for (int i = 0; i < K && ok; ++i) { DV v = dv<T, 2>(solid ? s.solidarc(lo, hi, in, R) : s.arc(lo, hi)); double r = mag(v), a = std::atan2(v[1], v[0]) - lo; a -= std::floor(a / (2 * M_PI)) * 2 * M_PI; if (a > 2 * M_PI - tol * 8) a = 0; ok = a <= w + tol * 8 && (solid ? r >= in * (1 - tol) && r <= R * (1 + tol) : std::abs(r - 1) <= tol); u.a.push_back(std::min(1., a / w)); if (solid) u.b.push_back((r / R * r / R - k * k) / (1 - k * k)); }
    if (!c.check(ok, "inside")) return; if (solid) u.joint(c, "joint"); ks(c, u.a, "angle", 1e-5); if (solid) ks(c, u.b, "radius"); c.cover(solid ? "solidarc" : "arc"); c.nontrivial(hcomb(hval(lo), hval(R)));
}
TSUITE("arc/double", 80, 4000, (arcs<double>)) TSUITE("arc/float", 80, 4000, (arcs<float>))
template <class T, index_t N> void shapes(Ctx& c) {
    std::mt19937_64 mt(c.rng.next()); LCRand lc(c.rng.next());
    { Sphere<T, N> s(tvec<T, N>(rdir(c, N) * c.rng.uniform(0, 10)), (T)std::abs(c.rng.logmag(-2, 2))); SampleShape<Sphere<T, N>> f(c.rng.coin() ? s : Sphere<T, N>(s.center, s.r * 2)); f.param(s); f.reset(); DV ct = dv<T, N>(s.center), a1 = rdir(c, N); Uni u; bool ok = true; double tol = 8 * N * eps<T>() * (mag(ct) + s.r); for (int i = 0; i < K && ok; ++i) { DV v = dv<T, N>(f(mt)) - ct; double r = mag(v); ok = r <= s.r + tol; u.a.push_back(dirp(dot(v, a1) / r, N)); u.b.push_back(std::min(1., std::pow(r / s.r, N))); } if (c.check(ok, "in-sphere")) { u.joint(c, "joint"); ks(c, u.a, "direction"); ks(c, u.b, "radius", .5 * tol * N / s.r); } c.cover("sample-sphere"); c.check(f.param().r == s.r && f.param().center == s.center, "param"); }
    { int n = c.rng.chance(.5) ? N + 1 : 1 + (int)c.rng.below(N + 1); Simplex<T, N> s; s.n = 0; std::vector<DV> p; for (int i = 0; i < N + 1; ++i) s.pts[i] = tvec<T, N>(DV(N, 1e9)); s.n = n; for (int i = 0; i < n; ++i) { s.pts[i] = tvec<T, N>(rdir(c, N) * c.rng.uniform(.5, 3)); p.push_back(dv<T, N>(s.pts[i])); } SampleShape<Simplex<T, N>> f(s); c.note = std::to_string(n) + " vertices";
      // barycentric coordinates by least squares over an orthonormal basis of the edges
      int m = n - 1; std::vector<DV> q, R; for (int i = 0; i < m; ++i) { DV e = p[i + 1] - p[0]; DV r(m); for (int k = 0; k < (int)q.size(); ++k) { r[k] = dot(e, q[k]); e = e - q[k] * r[k]; } r[i] = mag(e); if (r[i] < .05) return; q.push_back(e * (1 / r[i])); R.push_back(r); }
      std::vector<DV> lam(n); bool ok = true; double worst = 0, tol = 64 * eps<T>(); for (int k = 0; k < m; ++k) tol *= std::max(1., 6 / R[k][k]); if (tol > 1e-2) return; for (int i = 0; i < K && ok; ++i) { DV v = dv<T, N>(f(mt)) - p[0]; DV l(m); double sum = 0; for (int k = m - 1; k >= 0; --k) { double y = dot(v, q[k]); for (int j = k + 1; j < m; ++j) y -= R[j][k] * l[j]; l[k] = y / R[k][k]; sum += l[k]; } DV off = v; for (int k = 0; k < m; ++k) off = off - (p[k + 1] - p[0]) * l[k]; worst = std::max(worst, mag(off)); ok = mag(off) <= tol; lam[0].push_back(1 - sum); for (int k = 0; k < m; ++k) lam[k + 1].push_back(l[k]); for (auto& x : lam) { ok = ok && x.back() >= -tol; worst = std::max(worst, -x.back()); } }
      if (c.check(ok, "in-simplex", [&](auto& o) { o << worst; }) && n > 1) { for (int k = 0; k < n; ++k) { DV u; for (double x : lam[k]) u.push_back(1 - std::pow(std::max(0., 1 - x), m)); ks(c, u, "barycentric", m * tol); int j = (k + 1) % n; if (n > 2) { Uni w; for (size_t i = 0; i < lam[k].size(); ++i) { double sm = lam[k][i] + lam[j][i]; w.a.push_back(lam[k][i] / sm); w.b.push_back(1 - std::pow(std::max(0., 1 - lam[(k + 2) % n][i]), m)); } if (n > 3 || true) w.joint(c, "joint"); } } c.cover(n == N + 1 ? "sample-simplex" : "sample-lower-simplex"); } }
    c.nontrivial(c.index);
}
TSUITE("shape/double-2", 40, 2000, (shapes<double, 2>)) TSUITE("shape/double-3", 40, 2000, (shapes<double, 3>)) TSUITE("shape/float-3", 40, 2000, (shapes<float, 3>)) TSUITE("shape/double-4", 40, 2000, (shapes<double, 4>))
