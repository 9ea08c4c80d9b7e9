#include "m.h"
// boxes in any orientation, by separating axes where supported; and the spheres' own tests
template <class T, index_t N> void boxes(Ctx& c) {
    typedef Vec<T, N> V; typedef Oriented<Rect<T, N>> O; RP ra, rb; O a = Gen<O>::make(c, ra), b = Gen<O>::make(c, rb); RP rr; Rect<T, N> r = Gen<Rect<T, N>>::make(c, rr);
    auto test = [&](const auto& x, const RefShape& rx, const auto& y, const RefShape& ry, bool plain, const char* ov, const char* ap) { for (int k = 0; k < 4; ++k) { bool over = c.rng.coin(); V sh; LP ax; ld mg; if (!place<T, N>(c, rx, ry, sh, ax, mg, over)) continue; ld tol = tol2<T>(rx, ry, lp(sh)); if (mg <= tol) { c.cover("skipped-touching"); continue; } c.note = rx.show() + " and " + ry.show() + " moved by " + sv(sh); bool got; auto show = [&](auto& z) { z.precision(17); z << (over ? "overlap at " : "clear along ") << sp(ax) << " by " << (double)mg; };
        if constexpr (std::is_same_v<std::decay_t<decltype(y)>, Rect<T, N>>) { Rect<T, N> m(y.lo + sh, y.hi + sh); got = x.intersects(m); } else { auto m = translation(sh) * y; got = x.intersects(m); c.check(m.intersects(x) == over, over ? ov : ap, show); } c.check(got == over, over ? ov : ap, show); c.cover(over ? "boxes-overlap" : "boxes-apart"); } };
    test(a, *ra, b, *rb, false, "obb-overlap", "obb-apart"); test(a, *ra, r, *rr, true, "obb-rect-overlap", "obb-rect-apart");
    // edges that cross: separated only along the product of two edges
    if constexpr (N == 3) { typedef AffineTransform<T, 3> X; Rect<T, 3> u(V((T)-1), V((T)1)); LP d(3); T h1 = (T)rsize(c), h2 = (T)rsize(c); u = Rect<T, 3>(V(-h1, -h1, -h1), V(h1, h1, h1)); Rect<T, 3> w(V(-h2, -h2, -h2), V(h2, h2, h2)); O o1(u, rotation(V(0, 0, 1), (T)(PIL / 4))), o2(w, rotation(V(1, 0, 0), (T)(PIL / 4)) * rotation(V(0, 1, 0), (T)(c.rng.uniform(-.2, .2)))); X world = rotation(rdir<T, 3>(c), (T)c.rng.uniform(-3, 3)); RP q1, q2; auto mk = [&](const O& o) { RP b(new RBox(lp(o.shape.lo), lp(o.shape.hi))); return xfref<T, 3>(std::move(b), o.xf); }; q1 = mk(o1); q2 = mk(o2);
        // directions near the product of the crossing edges
        LP n(3); ld best = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { V e1(o1.xf.mat(0, i), o1.xf.mat(1, i), o1.xf.mat(2, i)), e2(o2.xf.mat(0, j), o2.xf.mat(1, j), o2.xf.mat(2, j)); LP p = lp(e1 ^ e2); ld m = magp(p); if (m < .3L) continue; if (c.rng.below(9) == 0 || best == 0) { n = p * (1 / m); best = m; } } if (c.rng.coin()) n = n * -1; for (int k = 0; k < 3; ++k) { ld gap = (ld)pow(10, c.rng.uniform(-2, -.5)) * std::min(h1, h2); ld h = q1->support(n) + q2->support(n * -1); V sh = tv<T, 3>(n * (h + gap)); ld mg = dotp(lp(sh), n) - h; O m = translation(sh) * o2; c.check(!(world * o1).intersects(world * m) && !(world * m).intersects(world * o1), "edges-apart", [&](auto& z) { z << q1->show() << " and " << q2->show() << " moved by " << sv(sh) << " clear by " << (double)mg; }); c.cover("edge-edge"); } }
    c.nontrivial(hcomb(hshape<O>(*ra), hshape<O>(*rb)));
}
template <class T, index_t N> void spheres(Ctx& c) {
    typedef Vec<T, N> V; typedef Sphere<T, N> S; RP ra, rb, rr, rc; S a = Gen<S>::make(c, ra), b = Gen<S>::make(c, rb); Rect<T, N> r = Gen<Rect<T, N>>::make(c, rr); Capsule<T, N> p = Gen<Capsule<T, N>>::make(c, rc); const ld E = std::numeric_limits<T>::epsilon();
    for (int k = 0; k < 4; ++k) { bool over = c.rng.coin(); auto go = [&](const RefShape& x, const RefShape& y, auto f, ld dist, const char* ov, const char* ap) { };
        auto near = [&](const RefShape& x, ld ext) { LP s = surfpt(c, x, x.inner(), rdirl(c, N)), d = rdirl(c, N); return s + d * ((ld)c.rng.uniform(0, 2) * a.r / magp(d)); };
        S m = a; { m.center = tv<T, N>(near(*rb, b.r)); ld d = magp(lp(m.center) - lp(b.center)), g = d - m.r - b.r, tol = 32 * E * (d + m.r + b.r + rb->extent()); if (fabsl(g) > tol) { c.check(m.intersects(b) == (g < 0) && b.intersects(m) == (g < 0), g < 0 ? "spheres-overlap" : "spheres-apart", [&](auto& z) { z << sv(m.center) << " r " << m.r << "; " << sv(b.center) << " r " << b.r << " gap " << (double)g; }); c.cover(g < 0 ? "spheres-overlap" : "spheres-apart"); } }
        { m.center = tv<T, N>(c.rng.coin() ? near(*rr, 0) : boxpt(c, *rr, 2)); ld g = rr->sdf(lp(m.center)) - m.r, tol = 32 * E * (rr->extent() + magp(lp(m.center)) + m.r); if (fabsl(g) > tol) { c.check(m.intersects(r) == (g < 0), g < 0 ? "sphere-rect-overlap" : "sphere-rect-apart", [&](auto& z) { z << sv(m.center) << " r " << m.r << "; " << rr->show() << " gap " << (double)g; }); c.cover(g < 0 ? "sphere-rect-overlap" : "sphere-rect-apart"); } }
        { m.center = tv<T, N>(near(*rc, 0)); ld g = rc->sdf(lp(m.center)) - m.r, tol = 64 * E * (rc->extent() + magp(lp(m.center)) + m.r); if (fabsl(g) > tol) { c.check(p.intersects(m) == (g < 0), g < 0 ? "capsule-sphere-overlap" : "capsule-sphere-apart", [&](auto& z) { z << sv(m.center) << " r " << m.r << "; " << rc->show() << " gap " << (double)g; }); c.cover(g < 0 ? "capsule-sphere-overlap" : "capsule-sphere-apart"); } } }
    { // exact contact counts: pythagorean distances and axis offsets of small integers
      static const int py[][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {0, 7, 7}, {6, 8, 10}}; auto& q = py[c.rng.below(5)]; V o; for (int j = 0; j < N; ++j) o[j] = c.rng.range(-9, 9); int i = c.rng.below(N), j = (i + 1 + c.rng.below(N - 1)) % N; V e = o; e[i] += c.rng.coin() ? q[0] : -q[0]; e[j] += c.rng.coin() ? q[1] : -q[1]; T r1 = c.rng.range(1, q[2] * 4 - 1) / (T)4; S s1(o, r1), s2(e, q[2] - r1); c.check(s1.intersects(s2) && s2.intersects(s1), "spheres-touch", [&](auto& z) { z << sv(o) << " r " << r1 << "; " << sv(e) << " r " << s2.r; });
      S s3(o, q[2]); V lo = e, hi = e; for (int k = 0; k < N; ++k) { if (e[k] >= o[k]) { hi[k] += c.rng.range(1, 5); if (e[k] == o[k]) lo[k] -= c.rng.range(1, 5); } else lo[k] -= c.rng.range(1, 5); } Rect<T, N> rt(lo, hi); c.check(s3.intersects(rt), "sphere-rect-touch", [&](auto& z) { z << sv(o) << " r " << s3.r << "; " << sv(lo) << ".." << sv(hi); }); c.cover("touch"); }
    c.nontrivial(hcomb(hshape<S>(*ra), hshape<S>(*rb)));
}
TSUITE("boxes/2d", 2000, 60000, (boxes<double, 2>))
TSUITE("boxes/2f", 2000, 60000, (boxes<float, 2>))
TSUITE("boxes/3d", 2000, 60000, (boxes<double, 3>))
TSUITE("boxes/3f", 2000, 60000, (boxes<float, 3>))
TSUITE("boxes/4d", 1000, 30000, (boxes<double, 4>))
TSUITE("spheres/2d", 3000, 60000, (spheres<double, 2>))
TSUITE("spheres/3f", 3000, 60000, (spheres<float, 3>))
TSUITE("spheres/4d", 3000, 60000, (spheres<double, 4>))
