#include "shapes.h"
template <class S> void member(Ctx& c) {
    typedef typename S::elem_t T; constexpr index_t N = S::N; RP r; S s = Gen<S>::make(c, r); c.note = r->show();
    for (int k = 0; k < 12; ++k) { std::string kind; Vec<T, N> p = probe<T, N>(c, *r, kind); LP q = lp(p); ld d = r->sdf(q), tol = tolr<T>(*r, q); if (fabsl(d) <= tol) { c.cover("too-close"); continue; } c.check(s.contains(p) == (d < 0), "contains", [&](auto& o) { o << kind << " point " << sv(p) << " reference distance " << (double)d << " tolerance " << (double)tol; }); c.cover(kind + (d < 0 ? "-in" : "-out")); }
    c.cover("shapes"); c.nontrivial(hshape<S>(*r));
}
