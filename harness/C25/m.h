#include "shapes.h"
template <class S> struct OwnNormal { static const bool v = true; }; template <class T, index_t N> struct OwnNormal<Rect<T, N>> { static const bool v = false; }; template <class S> struct OwnNormal<Dilated<S>> { static const bool v = OwnNormal<S>::v; }; template <class S> struct OwnNormal<Extruded<S>> { static const bool v = OwnNormal<S>::v; };
template <class S> void surface(Ctx& c) {
    typedef typename S::elem_t T; constexpr index_t N = S::N; typedef Vec<T, N> V; RP r; S s = Gen<S>::make(c, r); c.note = r->show(); ld E = std::numeric_limits<T>::epsilon();
    for (int k = 0; k < 8; ++k) {
        std::string kind; V p = probe<T, N>(c, *r, kind); LP pl = lp(p); ld tol = tolr<T>(*r, pl); if (r->vague(pl, tol)) { c.cover("no-direction"); continue; } ld d = r->sdf(pl); auto show = [&](auto& o) { o.precision(17); o << kind << " point " << sv(p) << " reference distance " << (double)d << " tolerance " << (double)tol; };
        T g = s.sdf(p); c.check(fabsl(g - d) <= tol, "sdf", [&](auto& o) { show(o); o << " got " << g; });
        V q = s.project(p); LP ql = lp(q); ld sq = r->sdf(ql), dist = magp(ql - pl); c.check(fabsl(sq) <= tol, "project-on-surface", [&](auto& o) { show(o); o << " projects to " << sv(q) << " at " << (double)sq; }); c.check(fabsl(dist - fabsl(d)) <= tol, "project-nearest", [&](auto& o) { show(o); o << " projects to " << sv(q) << " at distance " << (double)dist; });
        V cl = s.clip(p); if (fabsl(d) > tol) { if (d < 0) c.check(cl == p, "clip-moves-inside-point", show); else c.check(ldist(L(cl), L(q)) <= tol, "clip-outside", [&](auto& o) { show(o); o << " clips to " << sv(cl); }); c.check(s.contains(p) == (g < 0), "sdf-sign-vs-contains", show); }
        bool own = OwnNormal<S>::v; if (own || fabsl(d) > 1e4L * tol) { V n = s.normal(p); LP nl = lp(n); ld err = fabsl(d) > 1e4L * tol ? tol / fabsl(d) : tol / r->thin(), delta = r->thin() / 2 + std::max<ld>(0, -d); c.check(fabsl(magp(nl) - 1) <= 64 * E + (own ? 0 : 8 * E), "normal-unit", [&](auto& o) { show(o); o << " normal " << sv(n); });
            ld up = r->sdf(pl + nl * delta), t2 = 4 * tol + (delta + fabsl(d)) * 4 * err; if (own || true) c.check(fabsl(up - (d + delta)) <= t2, "normal-increases-distance", [&](auto& o) { show(o); o << " normal " << sv(n) << " distance at " << (double)delta << " along it " << (double)up; });
            if (fabsl(d) > 1e4L * tol) { ld back = r->sdf(pl - nl * d); c.check(fabsl(back) <= 8 * tol, "normal-leads-to-surface", [&](auto& o) { show(o); o << " normal " << sv(n) << " leads to " << (double)back; }); } c.cover("normals"); }
        c.cover(kind + (d < 0 ? "-in" : "-out"));
    }
    c.cover("shapes"); c.nontrivial(hshape<S>(*r));
}
