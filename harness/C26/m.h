#include "shapes.h"
// rays that certainly hit (through a known interior point), that certainly miss (inside a plane clear of the shape), and special directions
template <class S> void rays(Ctx& c) {
    typedef typename S::elem_t T; constexpr index_t N = S::N; typedef Vec<T, N> V; RP r; S s = Gen<S>::make(c, r); c.note = r->show(); ld big = (ld)std::numeric_limits<T>::max() / 4;
    for (int k = 0; k < 6; ++k) {
        LP in = c.rng.chance(.2) ? r->inner() : insidept(c, *r), dl = rdirl(c, N); ld sc = c.rng.coin() ? 1 : pow(10, c.rng.uniform(-1, 1)); V d = tv<T, N>(dl * sc); dl = lp(d); ld s0 = c.rng.coin() ? 0 : (ld)(c.rng.uniform(-3, 3) * r->extent() / magp(dl)); V o = tv<T, N>(in - dl * s0); LP ol = lp(o); in = ol + dl * s0;
        ld depth = -r->sdf(in), tol = 4 * tolr<T>(*r, ol) ; for (auto x : in) tol = std::max(tol, 4 * tolr<T>(*r, in)); if (depth < 64 * tol) { c.cover("too-thin"); continue; }
        Rect<T, 1> iv = s.intersect(Ray<T, N>(o, d)); auto show = [&](auto& z) { z.precision(17); z << "origin " << sv(o) << " direction " << sv(d) << " interval " << iv.lo << ".." << iv.hi << " should contain " << (double)s0 << " (depth " << (double)depth << ", tolerance " << (double)tol << ")"; };
        if (!c.check(iv.lo <= iv.hi && iv.lo <= s0 && s0 <= iv.hi, "hit", show)) continue; c.check(iv.lo > -big && iv.hi < big, "unbounded-hit", show);
        for (int e = 0; e < 2; ++e) { ld t = e ? iv.hi : iv.lo; LP at = ol + dl * t; ld g = r->sdf(at), tt = 4 * tol + 16 * std::numeric_limits<T>::epsilon() * fabsl(t) * magp(dl) * (1 + r->extent() / r->thin()); c.check(fabsl(g) <= tt, e ? "exit-on-surface" : "entry-on-surface", [&](auto& z) { show(z); z << "; end at " << (double)g << " from the surface"; }); }
        int nz = 0; for (auto z : dl) nz += z != 0; c.cover(nz == 1 ? "hit-axis-direction" : nz < N ? "hit-partial-direction" : "hit"); if (s0 == 0) c.cover("hit-from-inside");
    }
    for (int k = 0; k < 4; ++k) { // a plane n.x = support + gap, and a ray inside it
        LP n = rdirl(c, N); n = n * (1 / magp(n)); ld gap = r->extent() * (c.rng.coin() ? .01L : .5L) , h = r->support(n) + gap; LP v = rdirl(c, N); v = v - n * dotp(v, n); if (magp(v) < .1L) continue; LP at = n * h; for (int i = 0; i < 1; ++i) { LP w = boxpt(c, *r, 1.5); at = at + (w - n * dotp(w, n)); } V d = tv<T, N>(v), o = tv<T, N>(at + v * (ld)c.rng.uniform(-2, 2)); ld drift = fabsl(dotp(lp(d), n)); if (drift > 8 * std::numeric_limits<T>::epsilon()) continue;
        Rect<T, 1> iv = s.intersect(Ray<T, N>(o, d)); if (r->thin() * 1e4L < gap) continue; bool hit = iv.lo <= iv.hi; c.check(!hit, "miss", [&](auto& z) { z.precision(17); z << "origin " << sv(o) << " direction " << sv(d) << " stays " << (double)gap << " clear, interval " << iv.lo << ".." << iv.hi; }); c.cover("miss"); }
    c.cover("shapes"); c.nontrivial(hshape<S>(*r));
}
