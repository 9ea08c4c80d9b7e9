#include "shapes.h"
struct XM { int n; std::vector<LP> m; LP t; };
template <class T, index_t N> XM xm(const AffineTransform<T, N>& x) { XM r{(int)N, std::vector<LP>(N, LP(N)), LP((int)N)}; for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) r.m[i][j] = x.mat(i, j); r.t[i] = x.mat(i, N); } return r; }
inline XM mulx(const XM& a, const XM& b) { XM r{a.n, std::vector<LP>(a.n, LP(a.n)), a.t}; for (int i = 0; i < a.n; ++i) { for (int j = 0; j < a.n; ++j) for (int k = 0; k < a.n; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; for (int k = 0; k < a.n; ++k) r.t[i] += a.m[i][k] * b.t[k]; } return r; }
inline XM invx(const XM& a) { XM r{a.n, std::vector<LP>(a.n, LP(a.n)), LP(a.n)}; for (int k = 0; k < a.n; ++k) { LP e(a.n), x; e[k] = 1; if (!lsolve(a.m, e, x)) abort(); for (int i = 0; i < a.n; ++i) r.m[i][k] = x[i]; } for (int i = 0; i < a.n; ++i) for (int k = 0; k < a.n; ++k) r.t[i] -= r.m[i][k] * a.t[k]; return r; }
inline ld big(const XM& a) { ld s = 1; for (auto& r : a.m) for (auto x : r) s = std::max(s, fabsl(x)); for (auto x : a.t) s = std::max(s, fabsl(x)); return s; }
// o should be the image of the base shape (reference rb) under w
template <class S, bool Ext = false> void same(Ctx& c, const Oriented<S>& o, const S& s, RP& rb, const XM& w, ld amp, const char* how) {
    typedef typename S::elem_t T; constexpr index_t N = S::N; const ld E = std::numeric_limits<T>::epsilon(); struct Hold { RP& a; RXf& b; ~Hold() { a = std::move(b.base); } }; RXf r(std::move(rb), w.m, w.t); Hold hold{rb, r}; ld tol = 256 * E * amp * r.extent(); auto what = [&](const char* k) { static thread_local std::string z; z = std::string(how) + "-" + k; return z.c_str(); }; c.cover(how);
    auto& body = *r.base;
    for (int k = 0; k < 4; ++k) { std::string kind; Vec<T, N> p = probe<T, N>(c, r, kind); LP q = lp(p); ld g = r.sdf(q); if (fabsl(g) <= 4 * tolr<T>(r, q, 256) * amp) { c.cover("skipped-near-surface"); continue; } c.check(o.contains(p) == (g < 0), what("contains"), [&](auto& z) { z << sv(p) << " distance at least " << (double)g; }); c.cover(g < 0 ? "inside" : "outside"); }
    Rect<T, N> b = o.bounds(); for (int i = 0; i < N; ++i) { LP e((int)N); e[i] = 1; ld hi = r.support(e); e[i] = -1; ld lo = -r.support(e); c.check(fabsl(b.hi[i] - hi) <= tol && fabsl(b.lo[i] - lo) <= tol, what("bounds"), [&](auto& z) { z << "axis " << i << " " << b.lo[i] << ".." << b.hi[i] << " want " << (double)lo << ".." << (double)hi << " tolerance " << (double)tol; }); }
    for (int k = 0; k < 2; ++k) { LP dl = rdirl(c, N); Vec<T, N> d = tv<T, N>(dl); dl = lp(d); Vec<T, N> x = o.convex_support(d); ld want = r.support(dl), got = dotp(lp(x), dl); c.check(fabsl(want - got) <= tol * magp(dl), what("support"), [&](auto& z) { z << "direction " << sv(d) << " point " << sv(x) << " reaches " << (double)got << " of " << (double)want << " tolerance " << (double)tol; }); }
    if constexpr (std::is_base_of<RayIntersectable<T, N, S>, S>::value && !std::is_same_v<S, Capsule<T, N>> && !Ext) for (int k = 0; k < 2; ++k) { // the image of a ray hits at the parameters at which the ray hit; inverse images of points, in long double
        LP in = insidept(c, r), dl = rdirl(c, N); Vec<T, N> d = tv<T, N>(dl), p = tv<T, N>(in); dl = lp(d); in = lp(p); if (-r.sdf(in) <= 64 * tolr<T>(r, in, 256) * amp) { c.cover("too-thin"); continue; } Rect<T, 1> iv = o.intersect(Ray<T, N>(p, d)); auto show = [&](auto& z) { z << "origin " << sv(p) << " direction " << sv(d) << " interval " << iv.lo << ".." << iv.hi; }; if (!c.check(iv.lo <= 0 && 0 <= iv.hi, what("ray-hit"), show)) continue;
        for (int e = 0; e < 2; ++e) { ld t = e ? iv.hi : iv.lo; LP at = in + dl * t; c.check(fabsl(r.sdf(at)) <= 64 * tolr<T>(r, at, 256) * amp * (1 + r.extent() / r.thin()), what("ray-end"), show); } c.cover("rays"); }
    (void)body;
}
template <class S> void cov(Ctx& c) {
    typedef typename S::elem_t T; constexpr index_t N = S::N; typedef AffineTransform<T, N> X; RP rb; S s = Gen<S>::make(c, rb); X A = rxf<T, N>(c), B = rxf<T, N>(c); XM a = xm<T, N>(A), b = xm<T, N>(B), ai = invx(a), bi = invx(b); c.note = rb->show() + " by " + str([&](auto& o) { o.precision(17); for (auto* m : {&a, &b}) { for (auto& r : m->m) o << sp(r); o << " + " << sp(m->t) << "; "; } }); ld fa = 1, fb = 1; { ld k = 0, l = 0; for (auto& r : a.m) for (auto x : r) k += x * x; for (auto& r : ai.m) for (auto x : r) l += x * x; fa = sqrtl(k * l); k = l = 0; for (auto& r : b.m) for (auto x : r) k += x * x; for (auto& r : bi.m) for (auto x : r) l += x * x; fb = sqrtl(k * l); }
    ld ta = 1 + magp(a.t) + magp(ai.t), tb = 1 + magp(b.t) + magp(bi.t), amp1 = fa * ta, amp2 = fa * fb * ta * tb;
    Oriented<S> w = A * s; same<S>(c, w, s, rb, a, 1, "wrap"); Oriented<S> cp(s, A); c.check(w == cp && !(Oriented<S>(s) == cp && !(A == X())), "equal-same"); c.check(std::hash<Oriented<S>>()(w) == std::hash<Oriented<S>>()(cp), "equal-hash");
    { S s2 = s; Oriented<S> d = B * s; if (!(A == B)) c.check(!(w == d), "unequal-transform"); RP r2; S o = Gen<S>::make(c, r2); if (!(o == s)) c.check(!(w == A * o), "unequal-shape"); }
    switch (c.rng.below(7)) {
        case 0: same<S>(c, B * w, s, rb, mulx(b, a), amp2, "compose"); break;
        case 1: w *= B; same<S>(c, w, s, rb, mulx(b, a), amp2, "compose-in-place"); break;
        case 2: same<S>(c, s / A, s, rb, ai, amp1, "unwrap"); break;
        case 3: same<S>(c, w / B, s, rb, mulx(bi, a), amp2, "uncompose"); break;
        case 4: w /= B; same<S>(c, w, s, rb, mulx(bi, a), amp2, "uncompose-in-place"); break;
        case 5: { Oriented<S> x = (B * w) / B; same<S>(c, x, s, rb, a, amp2 * fb * tb, "round-trip"); same<S>(c, x / A, s, rb, mulx(ai, a), amp2 * amp2, "identity-again"); break; }
        default: { Oriented<S> x = (B * A) * s; same<S>(c, x, s, rb, mulx(b, a), amp2, "composed-transform"); }
    }
    { Oriented<Rect<T, N>> ob = w.oriented_bounds(); Rect<T, N> sb; if constexpr (std::is_same_v<S, Rect<T, N>>) sb = s; else sb = s.bounds(); RP rr(new RBox(lp(sb.lo), lp(sb.hi))); c.check(ob.shape == sb && ob.xf == w.xf, "oriented-bounds-parts"); XM now = xm<T, N>(w.xf); same<Rect<T, N>>(c, ob, sb, rr, now, amp2, "oriented-bounds"); }
    if constexpr (std::is_same_v<S, Rect<T, N>>) { XM now = xm<T, N>(w.xf); ld v = 1, m = 1; for (int i = 0; i < N; ++i) { ld e = (ld)s.hi[i] - s.lo[i]; v *= e; } std::vector<LP> g = now.m; ld det = 1; for (int k = 0; k < N; ++k) { int p = k; for (int i = k; i < N; ++i) if (fabsl(g[i][k]) > fabsl(g[p][k])) p = i; if (p != k) { std::swap(g[p], g[k]); det = -det; } det *= g[k][k]; for (int i = k + 1; i < N; ++i) { ld f = g[i][k] / g[k][k]; for (int j = k; j < N; ++j) g[i][j] -= f * g[k][j]; } } for (auto& r : now.m) m *= magp(r); ld got = w.volume(), E = std::numeric_limits<T>::epsilon(); if (c.check(fabsl(fabsl(got) - fabsl(det) * v) <= 64 * E * m * v, "volume", [&](auto& o) { o.precision(17); o << (double)got << " want " << (double)(det * v); })) c.cover(det < 0 ? "volume-mirrored" : "volume"); }
    c.cover("shapes"); c.nontrivial(hcomb(hshape<S>(*rb), hstr(c.note.c_str())));
}
