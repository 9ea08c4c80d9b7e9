// Regions of unsigned coordinates are those of the same signed numbers.
#include "vh.h"
#include <geomc/linalg/Vec.h>
#include <geomc/shape/Rect.h>
using namespace vh; using namespace geom;
template <class U, index_t N>
void nat(Ctx& c) {
    typedef Vec<U, N> V; typedef Vec<long, N> W; typedef Rect<U, N> R; typedef Rect<long, N> L;
    V a, b, d, e, p; bool small = c.rng.coin(); auto r = [&] { return c.rng.range(0, small ? 4 : 9); };
    for (int i = 0; i < N; ++i) { a[i] = r(); b[i] = a[i] + r(); d[i] = r(); e[i] = d[i] + r(); p[i] = c.rng.chance(.3) ? a[i] : c.rng.chance(.3) ? b[i] : (U)(2 * r()); }
    if (c.rng.chance(.1)) { int k = c.rng.below(N); std::swap(a[k], b[k]); }
    R x(a, b), y(d, e); L lx((W)a, (W)b), ly((W)d, (W)e); W q = (W)p;
    c.note = str([&](auto& o) { auto w = [&](const W& v) { o << "("; for (int i = 0; i < N; ++i) o << (i ? " " : "") << v[i]; o << ")"; }; w(lx.lo); w(lx.hi); o << " "; w(ly.lo); w(ly.hi); o << " "; w(q); });
    auto same = [&](const R& g, const L& w, const char* what) { c.check((W)g.lo == w.lo && (W)g.hi == w.hi, what, [&](auto& o) { for (int i = 0; i < N; ++i) o << (long)g.lo[i] << ".." << (long)g.hi[i] << " want " << w.lo[i] << ".." << w.hi[i] << "; "; }); };
    c.check(x.is_empty() == lx.is_empty() && x.contains(p) == lx.contains(q) && x.intersects(y) == lx.intersects(ly) && x.contains(y) == lx.contains(ly), "relations");
    { R g = x & y; L w = lx & ly; if (!w.is_empty()) same(g, w, "overlap"); else c.check(g.is_empty(), "overlap-empty"); R h = x; h &= y; c.check(h == g, "&="); }
    { R g = x | y; same(g, lx | ly, "union"); R h = x; h |= y; c.check(h == g, "|="); same(x | p, lx | q, "union-point"); }
    c.check((long)x.volume() == lx.volume(), "volume"); same(x + p, lx + q, "translated");
    if (!lx.is_empty()) {
        c.check((W)x.dimensions() == lx.dimensions() && (W)x.center() == lx.center() && (W)x.clip(p) == lx.clip(q) && (long)x.dist2(p) == lx.dist2(q), "measures");
        long k = c.rng.range(0, 3); if (lx.lo.min() >= k) same(x.dilated((U)k), lx.dilated(k), "dilated"); c.cover("unsigned-regions");
    }
    c.nontrivial(hstr(c.note.c_str()));
}
TSUITE("unsigned_2", 4000, 40000, (nat<unsigned, 2>))
TSUITE("unsigned_3", 4000, 40000, (nat<unsigned, 3>))
TSUITE("uint64_2", 4000, 40000, (nat<uint64_t, 2>))
