#include "shapes.h"
#include <geomc/shape/Intersect.h>
template <class T, index_t N> struct Moved { AffineTransform<T, N> x; LP t; };
// a translation of b (by the returned amount) that certainly overlaps a, at a common point, or is certainly clear of it, along a known direction
template <class T, index_t N> bool place(Ctx& c, const RefShape& a, const RefShape& b, Vec<T, N>& shift, LP& axis, ld& margin, bool overlap) {
    ld small = std::min(a.thin(), b.thin()); 
    if (overlap) { auto pt = [&](const RefShape& r) { LP i = r.inner(); if (c.rng.chance(.2)) return i; LP s = surfpt(c, r, i, rdirl(c, r.n)); ld f = c.rng.coin() ? c.rng.unit() : pow(10, c.rng.uniform(-3, 0)); return s + (i - s) * f; }; LP p = pt(a), q = pt(b); shift = tv<T, N>(p - q); q = q + lp(shift); ld d = std::min(-a.sdf(q), -b.sdf(q - lp(shift))); margin = d; axis = q; return d > 0; }
    LP n = rdirl(c, N); n = n * (1 / magp(n)); ld gap = (c.rng.coin() ? 1 : pow(10, c.rng.uniform(-3, 0))) * (c.rng.coin() ? small : (ld)c.rng.uniform(.1, 3) * small); gap = std::max(gap, (ld)1.5e-3 * std::max(a.extent(), b.extent())); LP side = rdirl(c, N) * (small * (ld)c.rng.uniform(0, 2)); side = side - n * dotp(side, n); LP at = a.inner() - b.inner(); at = at + side; ld h = a.support(n) + b.support(n * -1) - dotp(at, n) ; shift = tv<T, N>(at + n * (h + gap)); margin = dotp(lp(shift), n) - (a.support(n) + b.support(n * -1)); axis = n; return margin > 0;
}
template <class T> ld tol2(const RefShape& a, const RefShape& b, const LP& shift, ld k = 256) { ld e = a.extent() + b.extent() + magp(shift), t = std::min(a.thin(), b.thin()); return k * std::numeric_limits<T>::epsilon() * e * std::max<ld>(1, e / t); }
template <class A, class B, bool Member> void pairs(Ctx& c) {
    typedef typename A::elem_t T; constexpr index_t N = A::N; typedef Vec<T, N> V; RP ra, rb; A a = Gen<A>::make(c, ra); B b = Gen<B>::make(c, rb); Intersector<T, N> warm;
    for (int k = 0; k < 6; ++k) { bool over = c.rng.coin(); V sh; LP ax; ld mg; if (!place<T, N>(c, *ra, *rb, sh, ax, mg, over)) continue; ld tol = tol2<T>(*ra, *rb, lp(sh)); if (mg <= std::max(tol, (over ? 0 : (ld)1e-3) * std::max(ra->extent(), rb->extent()))) { c.cover("skipped-touching"); continue; } Oriented<B> o = translation(sh) * b; ld rel = mg / std::min(ra->thin(), rb->thin()); c.note = ra->show() + " and " + rb->show() + " moved by " + sv(sh); auto show = [&](auto& z) { z.precision(17); z << (over ? "overlap at " : "clear along ") << sp(ax) << " by " << (double)mg; };
        auto ca = as_any_convex(a); auto cb = as_any_convex(o); Intersector<T, N> fresh; bool got = fresh.intersects(ca, cb); c.check(got == over, over ? "gjk-overlap" : "gjk-apart", show); c.maximum("iterations", fresh.iterations); c.check(fresh.iterations <= fresh.max_iterations + 1, "iteration-limit");
        if (!got && !over) { V s = fresh.separation_axis; LP l = lp(s); ld m = magp(l); ld gap = m > 0 ? -(ra->support(l) + rb->support(l * -1) - dotp(lp(sh), l)) / m : -1; c.check(gap >= -tol * 16, "separation-axis", [&](auto& z) { show(z); z << " axis " << sv(s) << " leaves " << (double)gap; }); c.cover("axis"); }
        c.check(geom::intersects<T, N>(cb, ca) == over, over ? "free-overlap" : "free-apart", show);
        { bool w = c.rng.coin() ? warm.intersects(ca, cb) : warm.intersects(cb, ca); c.check(w == over, over ? "warm-overlap" : "warm-apart", show); Intersector<T, N> cp = warm; index_t sn = warm.simplex().n; bool w2 = cp.intersects(cb, ca); c.check(w2 == over && warm.simplex().n == sn, "copied-intersector", show); if (c.rng.chance(.3)) warm = cp; }
        if constexpr (Member) { c.check(a.intersects(o) == over, over ? "member-overlap" : "member-apart", show); c.check(o.intersects(a) == over, over ? "member-overlap" : "member-apart", show); }
        c.cover(over ? rel < .05L ? "overlap-close" : "overlap" : rel < .05L ? "apart-close" : "apart"); }
    c.nontrivial(hcomb(hshape<A>(*ra), hshape<B>(*rb)));
}
