// Objects that own memory when allocations fail: nothing is lost or released twice, and the objects can still be used.
#include "faults.h"
#include <memory>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/LUDecomp.h>
#include <geomc/linalg/Vec.h>
#include <geomc/function/Raster.h>
#include <geomc/function/Path.h>
#include <geomc/function/PerlinNoise.h>
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/shape/BinLatticePartition.h>
#include <geomc/random/LCRand.h>
using namespace geom; using namespace vh;
static volatile double g_sink;
// `sum` reads all of an object
template <class O, class Make, class Use, class Sum> void starve(Ctx& c, Make make, Use use, Sum sum) {
    u64 seed = c.rng.next(); i64 left = 0; u64 failed = 0;
    for (int pass = 0; pass < 2; ++pass) { left = g_heap; failed = 0; g_faults = Faults();
        { Rng r(seed); std::unique_ptr<O> s[3]; for (auto& x : s) x = make(r); int n = 5 + (int)r.below(25);
          for (int i = 0; i < n; ++i) { auto& a = s[r.below(3)]; auto& b = s[r.below(3)]; double was = sum(*b); int what = (int)r.below(6); long at = r.chance(.7) ? 1 + (long)r.below(4) : 0; std::unique_ptr<O> t; bool ok = false;
            g_faults.alloc = at;
            try { switch (what) { case 0: t = make(r); break; case 1: t = std::make_unique<O>(*b); break; case 2: case 3: if constexpr (std::is_copy_assignable_v<O>) { const O& q = *b; *a = q; } break; default: use(*a, *b, r); break; } ok = true; } catch (std::bad_alloc&) { ++failed; }
            g_faults.alloc = 0; if (!std::is_same_v<O, Raster<double, double, 2, 3>> && &a != &b) c.check(sum(*b) == was, "source-changed"); if (ok && what > 0 && what < 4 && std::is_copy_assignable_v<O>) c.check(sum(t ? *t : *a) == was, "result"); if (t) a = std::move(t); g_sink = sum(*a);
            if (!ok && r.chance(.3)) a = make(r);
          } }
        left = g_heap - left; }
    c.check(left == 0, "memory-left", [&](auto& o) { o << left << " blocks"; }); c.cover("failed-allocations", failed); c.cover("objects-starved"); c.nontrivial(seed);
}
template <class M> double msum(const M& m) { double s = m.rows() * 1000 + m.cols() * 100; for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) s += (double)m(i, j) * (1 + i + 7 * j); return s; }
template <class M, bool AnySize> void mtx(Ctx& c) { index_t fix = 1 + c.rng.below(4);
    auto make = [&](Rng& r) { index_t n = AnySize ? 1 + r.below(4) : fix; auto m = std::make_unique<M>(n, n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) (*m)(i, j) = (double)r.range(-4, 4); return m; };
    auto use = [](M& a, M& b, Rng& r) { switch (r.below(5)) { case 0: if (a.cols() == b.rows()) { M q = a * b; g_sink = q(0, 0); } break; case 1: { auto t = transpose(a); g_sink = t(0, 0); break; } case 2: { M v(a.rows(), a.cols()); bool ok = inv(&v, a); g_sink = ok; break; } case 3: if (a.rows() == b.rows()) { M s = a + b; g_sink = s(0, 0); mul(&s, a, b); } break; default: { M x(a); x.set_identity(); g_sink = x(0, 0) + (a == b); break; } } };
    starve<M>(c, make, use, msum<M>); }
TSUITE("matrix", 2000, 60000, (mtx<SimpleMatrix<double, 0, 0>, true>)) TSUITE("matrix-columns", 2000, 60000, (mtx<SimpleMatrix<double, 0, 0, COL_MAJOR>, true>))
void diag(Ctx& c) { typedef DiagMatrix<double, 0, 0> D; auto make = [](Rng& r) { index_t n = 1 + r.below(4); auto m = std::make_unique<D>(n, n); for (index_t i = 0; i < n; ++i) m->diagonal(i) = (double)r.range(1, 4); return m; };
    starve<D>(c, make, [](D& a, D& b, Rng& r) { if (a.rows() != b.rows()) return; if (r.coin()) { auto p = a * b; g_sink = p(0, 0); } else { D v(a.rows(), a.cols()); bool ok = inv(&v, a); g_sink = ok; } }, msum<D>); }
TSUITE("diagonal", 2000, 60000, diag)
void perm(Ctx& c) { typedef PermutationMatrix<0> P; auto make = [](Rng& r) { index_t n = 1 + r.below(5); auto m = std::make_unique<P>(n); for (int i = 0; i < 4; ++i) m->swap_rows(r.below(n), r.below(n)); return m; };
    starve<P>(c, make, [](P& a, P& b, Rng& r) { g_sink = a.sign(); if (r.coin()) a.transpose(); if (a.rows() == b.rows()) { auto p = a * b; g_sink = p(0, 0); } }, msum<P>); }
TSUITE("permutation", 2000, 60000, perm)
void path(Ctx& c) { typedef Path<double, 3> P; auto make = [](Rng& r) { auto p = std::make_unique<P>(); for (int i = 1 + (int)r.below(5); i > 0; --i) p->appendKnot(Vec<double, 3>(r.unit(), r.unit(), 1), Vec<double, 3>(0, r.unit(), 0)); return p; };
    starve<P>(c, make, [](P& a, P&, Rng& r) { a.appendKnot(Vec<double, 3>(1, 2, 3), Vec<double, 3>(1, 0, 0)); }, [](const P& p) { double s = 0; for (double x = 0; x < 4; x += .5) s += const_cast<P&>(p).eval(x)[0] * (1 + x); return s; }); }
TSUITE("path", 2000, 60000, path)
void harm(Ctx& c) { typedef SphericalHarmonics<double, 0> S; typedef ZonalHarmonics<double, 0> Z; auto make = [](Rng& r) { auto s = std::make_unique<S>((index_t)(1 + r.below(5))); for (index_t i = 0; i < s->size(); ++i) s->get()[i] = r.unit(); return s; };
    starve<S>(c, make, [](S& a, S& b, Rng& r) { Z z(a); S n = b; n.convolve(z); Vec<double, 3> u(0, 0, 1); S d(z, u); g_sink = d.get()[0]; }, [](const S& s) { double t = 100. * s.bands(); for (index_t i = 0; i < s.size(); ++i) t += s.get()[i] * (1 + i); return t; }); }
TSUITE("harmonics", 2000, 60000, harm)
void lattice(Ctx& c) { typedef BinLatticePartition<double, 2, int> B; typedef Vec<double, 2> V; auto pt = [](Rng& r) { return V(r.range(-6, 6) * .5, r.range(-6, 6) * .5); };
    auto make = [&](Rng& r) { auto b = std::make_unique<B>(1 + r.below(3)); for (int i = (int)r.below(9); i > 0; --i) b->insert(pt(r), i); return b; };
    starve<B>(c, make, [&](B& a, B&, Rng& r) { a.insert(pt(r), 50); if (a.size() > 9) a.erase(a.begin()); }, [](const B& b) { double n = 0; B& q = const_cast<B&>(b); for (auto i = q.begin(); i != q.end(); ++i) n += i->second + 3 * i->first[0] * i->first[0]; return n + 1000. * q.size(); }); }
TSUITE("bin-lattice", 2000, 60000, lattice)
void raster(Ctx& c) { typedef Raster<double, double, 2, 3> R; auto make = [](Rng& r) { return std::make_unique<R>(Vec<index_t, 2>(1 + r.below(5), 1 + r.below(5))); };
    starve<R>(c, make, [](R& a, R&, Rng& r) { a.set(Vec<index_t, 2>(0, 0), Vec<double, 3>(1, 2, 3)); g_sink = a.template sample<EDGE_CLAMP, INTERP_CUBIC>(Vec<double, 2>(r.unit(), 0))[0]; }, [](const R& a) { double s = 0; for (int x = -1; x < 6; ++x) for (int y = -1; y < 6; ++y) s += a.template sample<EDGE_CLAMP, INTERP_NEAREST>(Vec<double, 2>(x, y))[1] * (1 + x + 9 * y); return s == s ? s : 0; }); }
TSUITE("raster", 2000, 60000, raster)
