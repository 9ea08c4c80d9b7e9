#include "shapes.h"
template <class T, index_t N> struct RPlane { LP n; ld h; ld at(const LP& p) const { return dotp(n, p) - h; } };
template <class T, index_t N> void agrees(Ctx& c, const Plane<T, N>& pl, const RPlane<T, N>& r, ld scale, const char* what, ld k = 32, bool either = false) {
    const ld E = std::numeric_limits<T>::epsilon() * k; LP n = lp(pl.normal); ld s = either && dotp(n, r.n) < 0 ? -1 : 1; LP e = n - r.n * s; c.check(magp(e) <= E && fabsl((ld)pl.d + r.h * s) <= E * scale, what, [&](auto& o) { o.precision(17); o << "normal " << sv(pl.normal) << " d " << pl.d << " want " << sp(r.n * s) << " d " << (double)(-r.h * s) << " tolerance " << (double)E << " scale " << (double)scale; }); c.cover(what);
}
template <class T, index_t N> void plane(Ctx& c) {
    typedef Plane<T, N> P; typedef Vec<T, N> V; const ld E = std::numeric_limits<T>::epsilon(); P pl; RPlane<T, N> r; V nv = tv<T, N>(rdirl(c, N) * (ld)(c.rng.coin() ? 1 : pow(10, c.rng.uniform(-2, 2)))), pt = rpos<T, N>(c); LP nl = lp(nv); r.n = nl * (1 / magp(nl)); bool origin = c.rng.chance(.15); if (origin) { pl = P(nv); r.h = 0; pt = V(); } else { pl = P(nv, pt); r.h = dotp(r.n, lp(pt)); } if (c.rng.chance(.03)) { pl = P(); r.n.assign(N, 0); r.n[0] = 1; r.h = 0; pt = V(); }
    ld sc = 1 + magp(lp(pt)); agrees<T, N>(c, pl, r, sc, origin ? "ctor-origin" : "ctor-point"); c.note = str([&](auto& o) { o.precision(17); o << "plane " << sv(pl.normal) << " d " << pl.d << " through " << sv(pt); });
    auto pointwise = [&](const P& pl, const RPlane<T, N>& r, ld sc, ld k) { for (int q = 0; q < 4; ++q) { V p = rpos<T, N>(c); if (q == 3) { LP z = lp(p); z = z - r.n * r.at(z); p = tv<T, N>(z + r.n * (ld)((c.rng.coin() ? 1 : -1) * pow(10, c.rng.uniform(-5, 0)))); } LP z = lp(p); ld want = r.at(z), tol = k * E * (sc + magp(z)); T got = pl.distance(p); auto show = [&](auto& o) { o.precision(17); o << sv(p) << " distance " << got << " want " << (double)want; }; c.check(fabsl(got - want) <= tol, "distance", show); c.check(pl.sdf(p) == got, "sdf", show); if (fabsl(want) > tol) { c.check(pl.contains(p) == (want < 0), "contains", show); c.cover(want < 0 ? "below" : "above"); } else c.cover("on-plane"); LP j = lp(pl.project(p)); c.check(fabsl(r.at(j)) <= tol * 4 && magp(j - (z - r.n * want)) <= tol * 4, "project", show); } };
    pointwise(pl, r, sc, 32); { LP o = lp(pl.origin()); c.check(magp(o - r.n * r.h) <= 64 * E * sc, "origin"); }
    { P q = pl; q.d = pl.d + 1; c.check(pl == P(pl) && !(pl == q) && std::hash<P>()(pl) == std::hash<P>()(P(pl)), "equality"); q = pl; q.normal[c.rng.below(N)] += 1; c.check(!(pl == q), "equality"); }
    { T k = (T)rsize(c); P q = dilate(pl, k); RPlane<T, N> r2 = r; r2.h += (ld)k; agrees<T, N>(c, q, r2, sc + k, "dilate"); }
    // transforms
    { auto X = rxf<T, N>(c); RP dummy(new RSphere(LP((int)N), 1)); RP x = xfref<T, N>(std::move(dummy), X); RXf& f = (RXf&)*x; bool inv = c.rng.coin(); P q = pl; switch (c.rng.below(3)) { case 0: q = inv ? pl / X : X * pl; break; case 1: { P& s = inv ? (q /= X) : (q *= X); c.check(&s == &q, "returns-self"); break; } default: inv ? q.apply_inverse(X) : q.apply(X); }
      RPlane<T, N> r2; LP m(N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m[i] += (inv ? f.m[j][i] : f.mi[j][i]) * r.n[j]; ld amp = f.smax / f.smin; r2.n = m * (1 / magp(m)); LP q0 = inv ? f.inv(r.n * r.h) : f.fwd(r.n * r.h); r2.h = dotp(r2.n, q0); ld tm = magp(f.t), big = (1 + tm + sc) * amp * std::max(f.smax, 1 / f.smin); c.note += str([&](auto& o) { o << (inv ? " untransformed by " : " transformed by ") << f.show(); }); agrees<T, N>(c, q, r2, big, inv ? "inverse-transform" : "transform", 64 * amp); pointwise(q, r2, big, 64 * amp); if (fabsl(r.h) > .1L) c.cover("transform-offset"); }
    // planes through given directions and points
    { V b[N]; std::vector<LP> l; V o = rpos<T, N>(c); ld w = 1; for (int i = 0; i < N - 1; ++i) { LP d; ld m; do { d = c.rng.coin() ? rdirl(c, N) * rsize(c) : rdirl(c, N); b[i] = tv<T, N>(d); d = lp(b[i]); LP e = d; for (auto& z : l) e = e - z * (dotp(e, z) / dotp(z, z)); for (auto& z : l) e = e - z * (dotp(e, z) / dotp(z, z)); m = magp(e) / magp(d); if (m > .1L) { l.push_back(e); break; } } while (true); w *= m; }
      LP e; for (;;) { e = rdirl(c, N); for (int k = 0; k < 3; ++k) for (auto& z : l) e = e - z * (dotp(e, z) / dotp(z, z)); if (magp(e) > .01L) break; } RPlane<T, N> r2{e * (1 / magp(e)), 0}; ld os = 1 + magp(lp(o)); c.note += str([&](auto& q) { for (int i = 0; i < N - 1; ++i) q << " basis " << sv(b[i]); q << " at " << sv(o); }); agrees<T, N>(c, P::from_basis(b), r2, 1, "from-basis", 256 / w, true); r2.h = dotp(r2.n, lp(o)); agrees<T, N>(c, P::from_basis(b, o), r2, os, "from-basis-at", 256 / w, true);
      V pts[N]; pts[0] = o; ld err = 0; for (int i = 1; i < N; ++i) { pts[i] = o + b[i - 1]; err = std::max(err, os / magp(lp(b[i - 1]))); } P q = P::from_simplex(pts); agrees<T, N>(c, q, r2, os, "from-simplex", (256 + 16 * err) / w, true); }
    c.nontrivial(hstr(c.note.c_str()));
}
// plane against shapes
template <class S> void against(Ctx& c) {
    typedef typename S::elem_t T; constexpr index_t N = S::N; typedef Plane<T, N> P; typedef Vec<T, N> V; const ld E = std::numeric_limits<T>::epsilon(); RP r; S s = Gen<S>::make(c, r); c.note = r->show();
    for (int k = 0; k < 6; ++k) { LP n = rdirl(c, N); V nv = tv<T, N>(n); n = lp(nv); n = n * (1 / magp(n)); ld hi = r->support(n), lo = -r->support(n * -1), w = hi - lo, at; switch (c.rng.below(4)) { case 0: at = lo + w * (ld)c.rng.uniform(.01, .99); break; case 1: at = hi + w * (ld)pow(10, c.rng.uniform(-3, 1)); break; case 2: at = lo - w * (ld)pow(10, c.rng.uniform(-3, 1)); break; default: at = (hi + lo) / 2 + (c.rng.coin() ? 1 : -1) * w * (.5L + (ld)c.rng.uniform(-.01, .01)); } LP p = r->inner(); p = p + n * (at - dotp(p, n)); { LP z = rdirl(c, N); z = z - n * dotp(z, n); p = p + z * (ld)c.rng.uniform(-3, 3); }
        P pl(nv, tv<T, N>(p)); at = dotp(n, lp(tv<T, N>(p))); ld tol = 64 * E * (r->extent() + magp(p)); auto show = [&](auto& o) { o.precision(17); o << "plane " << sv(pl.normal) << " d " << pl.d << " shape spans " << (double)lo << ".." << (double)hi << " plane at " << (double)at; }; if (fabsl(at - hi) <= tol || fabsl(at - lo) <= tol) continue;
        c.check(pl.intersects(s) == (lo < at && at < hi), "intersects", show); c.check(pl.contains(s) == (hi < at), "contains-shape", show); c.cover(at < lo ? "plane-below" : at > hi ? "plane-above" : "plane-through");
    }
    c.nontrivial(hshape<S>(*r));
}
template <class T, index_t N> void hull(Ctx& c) {
    typedef Plane<T, N> P; typedef Vec<T, N> V; const ld E = std::numeric_limits<T>::epsilon(); int n = c.rng.range(1, 9); std::vector<V> v(n); V o = rpos<T, N>(c); for (auto& x : v) { x = o + tv<T, N>(rdirl(c, N) * rsize(c)); } 
    for (int k = 0; k < 4; ++k) { V nv = tv<T, N>(rdirl(c, N)); LP l = lp(nv); l = l * (1 / magp(l)); ld lo = 1e30L, hi = -1e30L; for (auto& x : v) { ld q = dotp(lp(x), l); lo = std::min(lo, q); hi = std::max(hi, q); } ld at = lo + (hi - lo) * (ld)c.rng.uniform(-.5, 1.5) + (hi == lo ? c.rng.range(-1, 1) : 0); LP p = l * at; P pl(nv, tv<T, N>(p)); ld tol = 64 * E * (1 + magp(lp(o)) + fabsl(at) + hi - lo); bool want = lo <= at && at <= hi; if (fabsl(at - lo) <= tol || fabsl(at - hi) <= tol) continue; 
        for (int rep = 0; rep < 2; ++rep) { c.check(pl.intersects(v.data(), n) == want, "hull", [&](auto& q) { q.precision(17); q << n << " points span " << (double)lo << ".." << (double)hi << " plane at " << (double)at << " normal " << sv(nv); }); std::reverse(v.begin(), v.end()); } c.cover(want ? "hull-through" : "hull-clear"); if (n == 1) c.cover("hull-single"); }
    { // a point exactly on the plane counts
      V u; int ax = c.rng.below(N); u[ax] = c.rng.coin() ? 1 : -1; std::vector<V> w(n); T lev = c.rng.range(-5, 5); int on = c.rng.below(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < N; ++j) w[i][j] = c.rng.range(-5, 5); w[i][ax] = lev + (i == on ? 0 : u[ax] * c.rng.range(1, 4)); } V q; q[ax] = lev; P pl(u, q); c.check(pl.intersects(w.data(), n), "hull-touch", [&](auto& z) { z << n << " points, number " << on << " on the plane"; }); c.cover("hull-touch"); }
    u64 h = 0; for (auto& x : v) for (int j = 0; j < N; ++j) h = hcomb(h, hval(x[j])); c.nontrivial(h);
}
TSUITE("plane/2d", 1500, 40000, (plane<double, 2>))
TSUITE("plane/2f", 1500, 40000, (plane<float, 2>))
TSUITE("plane/3d", 1500, 40000, (plane<double, 3>))
TSUITE("plane/3f", 1500, 40000, (plane<float, 3>))
TSUITE("plane/4d", 1500, 40000, (plane<double, 4>))
TSUITE("plane/5d", 1500, 40000, (plane<double, 5>))
TSUITE("shape/sphere-2d", 1500, 40000, (against<Sphere<double, 2>>))
TSUITE("shape/sphere-3f", 1500, 40000, (against<Sphere<float, 3>>))
TSUITE("shape/sphere-4d", 1500, 40000, (against<Sphere<double, 4>>))
TSUITE("shape/rect-3d", 1500, 40000, (against<Rect<double, 3>>))
TSUITE("shape/cylinder-3d", 1500, 40000, (against<Cylinder<double, 3>>))
TSUITE("shape/capsule-3f", 1500, 40000, (against<Capsule<float, 3>>))
TSUITE("shape/simplex-3d", 1500, 40000, (against<Simplex<double, 3>>))
TSUITE("shape/frustum-rect-2d", 1500, 40000, (against<Frustum<Rect<double, 2>>>))
TSUITE("shape/oriented-rect-3d", 1500, 40000, (against<Oriented<Rect<double, 3>>>))
TSUITE("shape/dilated-simplex-2d", 1500, 40000, (against<Dilated<Simplex<double, 2>>>))
TSUITE("hull/2d", 4000, 100000, (hull<double, 2>))
TSUITE("hull/3f", 4000, 100000, (hull<float, 3>))
TSUITE("hull/4d", 4000, 100000, (hull<double, 4>))
