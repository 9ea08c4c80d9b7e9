#include "geo.h"
#include <geomc/linalg/Quaternion.h>
typedef Vec<ld, 4> Q4; // x y z w
template <class T> Q4 LQ(const Quat<T>& q) { return Q4(q.x, q.y, q.z, q.w); }
static Q4 lmul(const Q4& a, const Q4& b) { Vec<ld, 3> u(a.x, a.y, a.z), v(b.x, b.y, b.z), r = v * a.w + u * b.w + lcross(u, v); return Q4(r.x, r.y, r.z, a.w * b.w - ldot<3>(u, v)); }
static Q4 lconj(const Q4& a) { return Q4(-a.x, -a.y, -a.z, a.w); }
static Vec<ld, 3> lrot(const Q4& q, const Vec<ld, 3>& v) { Q4 r = lmul(lmul(q, Q4(v.x, v.y, v.z, 0)), lconj(q)); return Vec<ld, 3>(r.x, r.y, r.z); }
#define NEARQ(G, W, TOL, NAME) { auto g_ = LQ(G); Q4 w_ = (W); ld t_ = (TOL); c.check(ldist<4>(g_, w_) <= t_, NAME, [&](auto& o) { o << sv(g_) << " want " << sv(w_) << " tolerance " << t_; }); }
template <class T> Quat<T> rq(Ctx& c) { Quat<T> q; switch (c.rng.below(5)) { case 0: for (int i = 0; i < 4; ++i) q[i] = c.rng.range(-2, 2); break; case 1: q[c.rng.below(4)] = c.rng.logmag(-2, 2); break; default: for (int i = 0; i < 4; ++i) q[i] = c.rng.gauss(); } if (c.rng.chance(.3)) q *= (T)c.rng.logmag(-2, 2); return q; }
template <class T> Quat<T> uq(Ctx& c) { if (c.rng.chance(.1)) return Quat<T>(0, 0, 0, c.rng.coin() ? 1 : -1); if (c.rng.chance(.1)) { Vec<T, 3> a = unitv<T, 3>(c); T t = c.rng.logmag(-9, -1); Quat<T> q(a * std::sin(t), (T)(c.rng.coin() ? 1 : -1) * std::cos(t)); return q.unit(); } for (;;) { Quat<T> q = rq<T>(c); if (q.mag() > 0) return q.unit(); } }
template <class T> void algebra(Ctx& c) {
    typedef Quat<T> Q; const ld E = std::numeric_limits<T>::epsilon(); Q a = rq<T>(c), b = rq<T>(c), d = rq<T>(c); T s = c.rng.logmag(-2, 2); c.note = str([&](auto& o) { o << sv(a) << " " << sv(b) << " " << s; });
    Q4 A = LQ(a), B = LQ(b), D = LQ(d); ld am = lmag<4>(A), bm = lmag<4>(B), dm = lmag<4>(D);
    NEARQ(a * b, lmul(A, B), 8 * E * am * bm, "product"); NEARQ(a.mult(b), lmul(A, B), 8 * E * am * bm, "mult"); NEARQ((a * b) * d, lmul(lmul(A, B), D), 20 * E * am * bm * dm, "associative"); NEARQ(a * (b * d), lmul(A, lmul(B, D)), 20 * E * am * bm * dm, "associative-2");
    { Q t = a * b; c.check(fabsl(lmag<4>(LQ(t)) - am * bm) <= 12 * E * am * bm, "norm-multiplicative"); NEARQ(a * a.conj(), Q4(0, 0, 0, am * am), 8 * E * am * am, "conjugate-product"); Q u = (a * b).conj(), v = b.conj() * a.conj(); NEARQ(u, LQ(v), 16 * E * am * bm, "conjugate-of-product"); }
    c.check(a.conj() == Q(-a.x, -a.y, -a.z, a.w) && std::conj(a) == a.conj() && a.conj().conj() == a, "conj"); c.check(Q::identity() * a == a && a * Q::identity() == a, "identity");
    // vector space operations
    bool ok = true; Q sum = a + b, dif = a - b, m = a * s, m2 = s * a, q = a / s, n = -a, x = a; x += b; x -= d; x *= s; Q y = a; y /= s; Q mx = a.mix(b, (T).25); for (int i = 0; i < 4; ++i) ok = ok && sum[i] == a[i] + b[i] && dif[i] == a[i] - b[i] && m[i] == a[i] * s && m2[i] == s * a[i] && q[i] == a[i] / s && n[i] == -a[i] && x[i] == (T)((T)(a[i] + b[i]) - d[i]) * s && y[i] == a[i] / s && fabsl(mx[i] - (.75L * a[i] + .25L * b[i])) <= 4 * E * (fabsl(a[i]) + fabsl(b[i])); c.check(ok, "vector-operations");
    c.check(a.real() == a.w && a.imag() == Vec<T, 3>(a.x, a.y, a.z) && Q(a.imag(), a.real()) == a && Q(Vec<T, 4>(a.x, a.y, a.z, a.w)) == a && Q{a.x, a.y, a.z, a.w} == a, "parts"); { T arr[4] = {a.x, a.y, a.z, a.w}; c.check(Q(arr) == a, "array"); Quat<double> w = a; Quat<float> f = a; c.check(w.x == (double)a.x && w.w == (double)a.w && f.y == (float)a.y && f.z == (float)a.z, "cast"); }
    { Q t = a; int k = c.rng.below(4); c.check(t == a && !(t != a), "equal"); t[k] += 1; c.check(t != a && !(t == a), "unequal"); }
    // dot and length
    c.check(fabsl(a.dot(b) - ldot<4>(A, B)) <= 6 * E * am * bm && fabsl(a.mag() - am) <= 6 * E * am, "dot-mag");
    // exponential, logarithm, powers
    { Q t = a; if (t.mag() > 8) t *= (T)8 / t.mag(); Q4 Tq = LQ(t); ld vm = lmag<3>(Vec<ld, 3>(Tq.x, Tq.y, Tq.z)), ew = expl(Tq.w), f = vm == 0 ? 1 : sinl(vm) / vm; NEARQ(std::exp(t), Q4(Tq.x * f * ew, Tq.y * f * ew, Tq.z * f * ew, ew * cosl(vm)), 40 * E * ew, "exp"); c.check(t.exp() == std::exp(t), "exp-method"); c.cover(vm == 0 ? "exp-real" : "exp"); }
    if (am > 0) { ld vm = lmag<3>(Vec<ld, 3>(A.x, A.y, A.z)); Q l = std::log(a); NEARQ(std::exp(l), A, (60 * E + 8 * sqrtl(E) * (vm > 0 && vm < .1 * am)) * am * (1 + fabsl(logl(am))), "exp-of-log"); c.check(fabsl(l.w - logl(am)) <= 8 * E * (1 + fabsl(logl(am))) && fabsl(lmag<3>(L(l.imag())) - atan2l(vm, A.w)) <= (vm < .1 * am ? 8 * sqrtl(E) : 40 * E) && a.log() == l, "log"); c.cover(vm == 0 ? (A.w > 0 ? "log-positive-real" : "log-negative-real") : "log");
        // powers
        int k = c.rng.range(-4, 4); Q4 P(0, 0, 0, 1); Q4 base = k < 0 ? lconj(A) * (1 / (am * am)) : A; for (int i = 0; i < std::abs(k); ++i) P = lmul(P, base); ld pt = (std::abs(k) + 1) * (vm < .1 * am ? 8 * sqrtl(E) : 60 * E) * lmag<4>(P) * (1 + fabsl(logl(am))); NEARQ(std::pow(a, k), P, pt, "integer-power"); NEARQ(std::pow(a, (T)k), P, pt, "integral-power"); Q h = std::pow(a, (T).5); NEARQ(h * h, A, (vm < .1 * am ? 16 * sqrtl(E) : 80 * E) * am, "square-root"); c.check(h.w >= -8 * E * sqrtl(am), "principal-root"); Q g = std::pow(a, 0.3), g2 = std::exp(Q(std::log(a) * (T)0.3)); NEARQ(g, LQ(g2), (60 * E) * (1 + lmag<4>(LQ(g))) * (1 + fabsl(logl(am))), "power-is-exp-log"); c.cover("powers"); }
    c.cover("algebra"); c.nontrivial(hcomb(hv(a), hv(b)));
}
TSUITE("algebra-double", 40000, 1000000, (algebra<double>))
TSUITE("algebra-float", 40000, 1000000, (algebra<float>))
template <class T> void rotation(Ctx& c) {
    typedef Quat<T> Q; typedef Vec<T, 3> V; const ld E = std::numeric_limits<T>::epsilon(); Q a = uq<T>(c), b = uq<T>(c); V v = rdir<T, 3>(c), n = rdir<T, 3>(c); T r = c.rng.chance(.2) ? (T)(c.rng.range(-4, 4) * (PIL / 2)) : (T)c.rng.uniform(-20, 20);
    c.note = str([&](auto& o) { o << sv(a) << " " << sv(b) << " " << sv(v) << " " << sv(n) << " " << r; }); Q4 A = LQ(a), B = LQ(b); Vec<ld, 3> VV = L(v); ld vm = lmag<3>(VV);
    NEARV(a * v, lrot(A, VV), 24 * E * vm, "rotate"); NEARV(v * a, lrot(lconj(A), VV), 24 * E * vm, "inverse-rotate"); V round = (a * v) * a; NEARV(round, v, 48 * E * vm, "undo"); c.check(fabsl(lmag<3>(L(a * v)) - vm) <= 24 * E * vm, "rotation-length"); V ab = (a * b) * v, ab2 = a * (b * v); NEARV(ab, ab2, 64 * E * vm, "composition");
    { Q q = Q::rotation_from_axis_angle(n, r); c.check(fabsl(q.mag() - 1) <= 6 * E, "unit-rotation"); NEARV(q * v, rodrigues(VV, L(n), r), 40 * E * vm, "axis-angle"); Q z = Q::rotation_from_axis_angle(V(), r); c.check(z == Q::identity(), "zero-axis"); }
    { Vec<T, 4> x = a.to_axis_angle_rotation(); ld s = lmag<3>(Vec<ld, 3>(A.x, A.y, A.z)); ld t = s < .1 ? 16 * sqrtl(E) : 80 * E; c.check(fabsl(x.template resized<3>().mag() - 1) <= 4 * E && x.w >= 0 && x.w <= 2 * PIL * (1 + E), "axis-angle-form", [&](auto& o) { o << sv(x); }); Q q = Q::rotation_from_axis_angle(x.template resized<3>(), x.w); NEARV(q * v, lrot(A, VV), t * vm, "axis-angle-round-trip"); V w = a.to_angular_velocity(); Q q2 = Q::rotation_from_axis_angle(w, w.mag()); NEARV(q2 * v, lrot(A, VV), t * vm, "angular-velocity-round-trip"); c.cover(s == 0 ? "no-axis" : s < .1 ? "small-axis" : "axis"); }
    { V u = unitv<T, 3>(c), w; std::string k; V x = related<T, 3>(c, u, k); w = x / x.mag(); Q q = Q::rotation_direction_align(u, w); c.check(fabsl(q.mag() - 1) <= 6 * E, "align-unit", [&](auto& o) { o << sv(q); }); NEARV(q * u, w, 40 * E, "align-maps"); V ax = u.cross(w); if (ax.mag() > 1e-3) { NEARV(q * ax, ax, 40 * E * ax.mag(), "align-shortest"); c.check(q.w >= 0, "align-short-way"); } c.cover("align-" + k); }
    // interpolation with the null rotation
    { T t = c.rng.chance(.2) ? (T)c.rng.below(2) : (T)c.rng.unit(); Q s = a.rotation_scale(t); c.check(fabsl(s.mag() - 1) <= 8 * E, "scale-unit", [&](auto& o) { o << sv(s); }); Vec<ld, 3> im(A.x, A.y, A.z); ld m = lmag<3>(im); if (m == 0) c.check(std::abs(s.w) == 1, "scale-of-nothing"); else { ld half = atan2l(m, A.w) * t; ld f = sinl(half) / m; NEARQ(s, Q4(im.x * f, im.y * f, im.z * f, cosl(half)), 12 * E, "rotation-scale"); } c.cover("scaled"); }
    // slerp: ends, unit length, constant speed along the shorter way
    { std::string k; Q q1; switch (c.rng.below(5)) { case 0: q1 = a; k = "same"; break; case 1: q1 = -a; k = "negated"; break; case 2: { q1 = a; for (int i = 0; i < 4; ++i) q1[i] += (T)(c.rng.gauss() * pow(10, c.rng.uniform(-9, -2))); q1 = q1.unit(); if (c.rng.coin()) q1 = -q1; k = "near"; break; } default: q1 = b; k = "general"; }
      T t = c.rng.chance(.2) ? (T)c.rng.below(2) : (T)c.rng.unit(); Q s = a.slerp(q1, t); c.note += str([&](auto& o) { o << " slerp to " << sv(q1) << " at " << t; }); Q4 C = LQ(q1); ld dot = ldot<4>(A, C); if (dot < 0) { C = C * -1.0L; dot = -dot; } ld chord = lmag<4>(A - C), om = 2 * asinl(std::min<ld>(chord / 2, 1)); 
      c.check(fabsl(s.mag() - 1) <= 12 * E, "slerp-unit", [&](auto& o) { o << sv(s); }); ld tol = 24 * E; 
      if (dot > 4 * E) { Q4 w = om == 0 ? A : (A * sinl((1 - t) * om) + C * sinl(t * om)) * (1 / sinl(om)); NEARQ(s, w, tol, "slerp"); c.cover("slerp-" + k); } }
    c.cover("rotation"); c.nontrivial(hcomb(hv(a), hv(v)));
}
TSUITE("rotation-double", 40000, 1000000, (rotation<double>))
TSUITE("rotation-float", 40000, 1000000, (rotation<float>))
