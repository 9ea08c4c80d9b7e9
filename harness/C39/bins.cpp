#include "vh.h"
#include <geomc/shape/BinLatticePartition.h>
#include <map>
using namespace geom; using namespace vh;
template <class T, index_t N> void bins(Ctx& c) {
    typedef BinLatticePartition<T, N, int> B; typedef PointType<T, N> PT; typedef typename PT::point_t P; typedef typename B::bin_t Bin; typedef std::vector<T> X; typedef std::vector<index_t> K;
    T cs = c.rng.chance(.3) ? (T)1 : (T)std::ldexp(1.0, (int)c.rng.range(-3, 3)); if (c.rng.chance(.3)) cs = (T)std::abs(c.rng.logmag(-3, 3)); B p(cs); std::map<int, X> m; int next = 0; uint64_t h = hval(cs); c.note = str([&](auto& o) { o << "cell " << cs; });
    T span = cs * (T)std::abs(c.rng.logmag(0, N == 1 ? 2 : .8)); auto mk = [](const X& x) { P q; for (index_t i = 0; i < N; ++i) PT::iterator(q)[i] = x[i]; return q; };
    auto un = [](const P& q) { X x; for (index_t i = 0; i < N; ++i) x.push_back(PT::iterator(q)[i]); return x; };
    auto bin = [&](const X& x) { K k; for (T v : x) k.push_back((index_t)std::floor(v / cs)); return k; }; auto ub = [](const Bin& b) { K k; for (index_t i = 0; i < N; ++i) k.push_back(PointType<index_t, N>::iterator(b)[i]); return k; };
    auto pt = [&] { X x; for (index_t i = 0; i < N; ++i) x.push_back(c.rng.chance(.3) ? cs * (T)c.rng.range(-4, 4) : (T)c.rng.uniform(-span, span)); return x; };
    auto close = [&](const std::multimap<int, X>& got, const char* what) { bool ok = got.size() == m.size(); for (auto& e : got) { auto i = m.find(e.first); ok = ok && i != m.end() && i->second == e.second && got.count(e.first) == 1; } c.check(ok, what, [&](auto& o) { o << got.size() << " items of " << m.size(); }); };
    auto query = [&](typename B::region_iterator it, const X& lo, const X& hi, const char* what) { K a = bin(lo), b = bin(hi); std::map<int, int> seen; size_t bad = 0, n = 0; auto e = it.end(); bool one = true; auto i = it.begin(); std::vector<typename B::region_iterator> at; for (; i != e; one ? ++i : i++, one = !one) { ++n; if (n < 100) at.push_back(i); auto f = m.find(i->second); if (f == m.end() || f->second != un(i->first) || ++seen[i->second] > 1) ++bad; K k = bin(un((*i).first)); if (ub(i.current_bin()) != k) ++bad; for (index_t j = 0; j < N; ++j) if (k[j] < a[j] || k[j] > b[j]) ++bad; if (n > 100000) break; } { size_t same = 0, fin = 0; for (size_t j = 0; j < at.size(); ++j) { fin += at[j] == i || i == at[j] || !(at[j] != e) || !(e != at[j]); for (size_t k = 0; k < at.size(); ++k) if ((at[j] == at[k]) != (j == k)) ++same; } if (n > 100000) fin = same = 0; c.check(fin == 0 && i == e && e == i, "finished-iterator-unequal", [&](auto& o) { o << fin << " of " << n; }); c.check(same == 0, "iterator-equality"); c.cover("iterators-compared", at.size()); }
        size_t missed = 0, inside = 0, edge = 0; for (auto& x : m) { bool in = true, ed = false; for (index_t j = 0; j < N; ++j) in = in && x.second[j] >= lo[j] && x.second[j] <= hi[j], ed |= x.second[j] == hi[j]; if (in) { ++inside; if (ed) ++edge; if (!seen.count(x.first)) ++missed; } } c.check(bad == 0 && missed == 0, what, [&](auto& o) { o << n << " found, " << bad << " wrong or repeated, " << missed << " of " << inside << " inside missed"; }); c.cover(n ? "query-found" : "query-empty"); if (inside) c.cover("items-inside", inside); if (edge) c.cover("items-on-edge", edge); if (a != b && n > inside) c.cover("query-several-bins"); };
    index_t steps = 20 + c.rng.below(60);
    for (index_t s = 0; s < steps; ++s) switch (c.rng.below(14)) {
        case 0: case 1: case 2: case 3: case 4: { X x = pt(); if (m.size() && c.rng.chance(.2)) x = c.rng.coin() ? m.begin()->second : m.rbegin()->second; p.insert(mk(x), next); m[next++] = x; h = hcomb(h, hval(x[0])); c.check(ub(p.binOf(mk(x))) == bin(x), "bin-of"); c.cover("insert"); break; }
        case 5: { if (m.empty()) break; auto i = p.begin(); std::advance(i, c.rng.below(m.size())); int id = i->second; p.erase(i); c.check(m.erase(id) == 1, "erased-known"); c.cover("erase"); break; }
        case 6: { if (m.empty() || c.rng.chance(.5)) break; auto i = p.binsBegin(); std::advance(i, c.rng.below(m.size())); int id = i->second.second; c.check(ub(i->first) == bin(m[id]), "bin-iterator"); p.erase(i); m.erase(id); c.cover("erase-bin-iterator"); break; }
        case 7: { X x = pt(), y = x; for (index_t i = 0; i < N; ++i) { y[i] += (T)c.rng.uniform(0, 2) * cs; if (c.rng.coin()) y[i] = cs * std::floor(y[i] / cs); if (y[i] < x[i]) y[i] = x[i]; } auto q = p.query(Rect<T, N>(mk(x), mk(y))); if (q == q.end()) break; typename B::iterator it = q; int id = it->second; p.erase(it); m.erase(id); c.cover("erase-found"); break; }
        case 8: { if (c.rng.chance(.9)) break; p.clear(); m.clear(); c.check(p.size() == 0 && p.begin() == p.end(), "clear"); c.cover("clear"); break; }
        case 9: { B q = p; q.insert(mk(pt()), -1); c.check(q.size() == m.size() + 1 && p.size() == m.size(), "copy"); if (c.rng.coin()) { q.clear(); } break; }
        case 10: { X x = pt(); T r = c.rng.chance(.3) ? cs * (T)c.rng.below(3) : cs * (T)c.rng.uniform(0, 2); X lo, hi; for (T v : x) { lo.push_back(v - r); hi.push_back(v + r); } query(p.query(mk(x), r), lo, hi, "query-radius"); break; }
        default: { X x = pt(), y = x; for (index_t i = 0; i < N; ++i) { switch (c.rng.below(4)) { case 0: break; case 1: y[i] = cs * (std::floor(x[i] / cs) + (T)c.rng.below(3)); if (y[i] < x[i]) y[i] = x[i]; break; default: y[i] += cs * (T)c.rng.uniform(0, 3); } } if (m.size() && c.rng.chance(.4)) { auto it = m.begin(); std::advance(it, c.rng.below(m.size())); for (index_t i = 0; i < N; ++i) if (it->second[i] >= x[i] && it->second[i] < x[i] + 3 * cs) y[i] = it->second[i]; } query(p.query(Rect<T, N>(mk(x), mk(y))), x, y, "query-rect"); std::multimap<int, X> all; for (auto& e : p) all.insert({e.second, un(e.first)}); close(all, "contents"); c.check(p.size() == m.size(), "size"); c.cover("contents"); break; } }
    c.nontrivial(h);
}
TSUITE("double-1", 1500, 100000, (bins<double, 1>)) TSUITE("double-2", 1500, 100000, (bins<double, 2>)) TSUITE("double-3", 1500, 100000, (bins<double, 3>)) TSUITE("float-2", 1500, 100000, (bins<float, 2>)) TSUITE("float-4", 700, 100000, (bins<float, 4>))
