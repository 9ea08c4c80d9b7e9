#include "shapes.h"
template <class S> void extents(Ctx& c) {
    typedef typename S::elem_t T; constexpr index_t N = S::N; RP r; S s = Gen<S>::make(c, r); c.note = r->show(); ld ext = r->extent(), E = std::numeric_limits<T>::epsilon(), tol = 64 * E * ext;
    Rect<T, N> b = s.bounds(); for (int i = 0; i < N; ++i) { LP e((int)N); e[i] = 1; ld hi = r->support(e); e[i] = -1; ld lo = -r->support(e); c.check(fabsl(b.hi[i] - hi) <= tol && fabsl(b.lo[i] - lo) <= tol, "bounds", [&](auto& o) { o << "axis " << i << " " << b.lo[i] << ".." << b.hi[i] << " want " << (double)lo << ".." << (double)hi << " tolerance " << (double)tol; }); }
    for (int k = 0; k < 8; ++k) { LP dl = rdirl(c, N); if (k == 1) dl = dl * (ld)pow(10, c.rng.uniform(-3, 3)); Vec<T, N> d = tv<T, N>(dl); dl = lp(d); Vec<T, N> x = s.convex_support(d); LP q = lp(x); ld want = r->support(dl), got = dotp(q, dl), t = tol * magp(dl), g = r->sdf(q), ts = tolr<T>(*r, q);
        c.check(fabsl(got - want) <= t, "support-maximal", [&](auto& o) { o << "direction " << sv(d) << " point " << sv(x) << " reaches " << (double)got << " of " << (double)want << " tolerance " << (double)t; }); c.check(g <= ts, "support-on-shape", [&](auto& o) { o << "direction " << sv(d) << " point " << sv(x) << " distance " << (double)g << " tolerance " << (double)ts; });
        int nz = 0; for (auto z : dl) nz += z != 0; c.cover(nz == 1 ? "axis-direction" : nz < N ? "partial-direction" : "general-direction"); }
    for (int k = 0; k < 4; ++k) { Vec<T, N> p = tv<T, N>(insidept(c, *r)); for (int i = 0; i < N; ++i) c.check(p[i] >= b.lo[i] - tol && p[i] <= b.hi[i] + tol, "inside-point-outside-bounds", [&](auto& o) { o << sv(p); }); }
    c.cover("shapes"); c.nontrivial(hshape<S>(*r));
}
