#include "vh.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/function/Path.h>
#include <geomc/function/Raster.h>
#include <geomc/function/PerlinNoise.h>
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
#include <geomc/SmallStorage.h>
#include <geomc/Deque.h>
#include <geomc/Storage.h>
#include "share.h"
using namespace geom;
template <class M> u64 hm(const M& m) { u64 h = m.rows(); for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) h = hcomb(h, hd((double)m(i, j))); return h; }
template <index_t M, index_t N> void matrix(Ctx& c) { index_t n = M ? M : 2 + c.rng.below(4); SimpleMatrix<double, M, N> a(n, n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) a(i, j) = c.rng.uniform(-1, 1) + (i == j ? 3 : 0); typedef SimpleMatrix<double, M, N> Mx;
    shared(c, a, [](const Mx& a, Rng& r) { u64 h = hm(a); Mx b = a; b(0, 0) = r.unit(); h = hcomb(h, hm(a * b)); h = hcomb(h, hm(transpose(a))); Mx inv(a.rows(), a.cols()); h = hcomb(h, geom::inv(&inv, a)); h = hcomb(h, hm(inv)); h = hcomb(h, hd(det(a))); h = hcomb(h, hm(a + b)); h = hcomb(h, a == b); auto row = a.row(0); for (index_t j = 0; j < a.cols(); ++j) h = hcomb(h, hd(row[j])); return h; }); }
template <index_t N> void perm(Ctx& c) { index_t n = N ? N : 5; PermutationMatrix<N> p(n); for (index_t i = 0; i < n; ++i) p.swap_rows(i, c.rng.below(n)); shared(c, p, [](const PermutationMatrix<N>& p, Rng& r) { u64 h = 1; index_t n = p.rows(); for (index_t i = 0; i < n; ++i) h = hcomb(h, p.getRowSources()[i] * 31 + p.getRowDestinations()[i] * 7 + p.getColSources()[i] * 3 + p.getColDestinations()[i]); PermutationMatrix<N> q = p; q.swap_cols(0, r.below(n)); h = hcomb(h, q.sign()); SimpleMatrix<double, 0, 0> m(n, n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) m(i, j) = r.unit(); h = hcomb(h, hm(p * m)); h = hcomb(h, hm(m * p)); h = hcomb(h, hm(p * q)); return hcomb(h, hm(p)); }); }
void affine(Ctx& c) { AffineTransform<double, 3> x = translation(Vec<double, 3>(1, c.rng.unit(), 3)) * rotation(Vec<double, 3>(1, 2, c.rng.unit()), c.rng.unit()); shared(c, x, [](const AffineTransform<double, 3>& x, Rng& r) { Vec<double, 3> v(r.unit(), r.unit(), r.unit()); return hcomb(hcomb(hvec(x.apply(v)), hvec(x.apply_inverse(v))), hcomb(hvec(x.apply_vector(v)), hcomb(hvec(x.apply_normal(v)), hvec((x * x.inverse()).apply(v))))); }); }
void path(Ctx& c) { Path<double, 3> p; for (int i = 0; i < 5; ++i) p.appendKnot(Vec<double, 3>(c.rng.unit(), i, 0), Vec<double, 3>(1, c.rng.unit(), 0)); shared(c, p, [](const Path<double, 3>& p, Rng& r) { return hvec(p.eval(r.uniform(-1, 6))); }); }
void raster(Ctx& c) { Raster<double, double, 2, 2> p(Vec<index_t, 2>(4, 5)); for (index_t i = 0; i < 4; ++i) for (index_t j = 0; j < 5; ++j) p.set(Vec<index_t, 2>(i, j), Vec<double, 2>(c.rng.unit(), c.rng.unit())); shared(c, p, [](const Raster<double, double, 2, 2>& p, Rng& r) { Vec<double, 2> q(r.uniform(-6, 9), r.uniform(-6, 9)); Raster<double, double, 2, 2> copy = p; u64 h = hvec(copy.sample(q, EDGE_MIRROR, INTERP_CUBIC)); h = hcomb(h, hvec(p.sample(q, EDGE_PERIODIC, INTERP_LINEAR))); h = hcomb(h, hvec(p.sample(q, EDGE_CONSTANT, INTERP_NEAREST))); return hcomb(h, hvec(p.sample(q, EDGE_CLAMP, INTERP_CUBIC))); }); }
template <index_t N> void noise(Ctx& c) { MTRand g(c.rng.next()); PerlinNoise<double, N> p(&g); shared(c, p, [](const PerlinNoise<double, N>& p, Rng& r) { typename PointType<double, N>::point_t x; for (index_t i = 0; i < N; ++i) PointType<double, N>::iterator(x)[i] = r.uniform(-50, 50); auto g = p.gradient(x); PerlinNoise<double, N> q = p; return hcomb(hd(p.eval(x)), hcomb(hd(g.first), hd(q.eval(x)))); }); }
void harmonics(Ctx& c) { SphericalHarmonics<double, 0> f(5); for (index_t i = 0; i < f.size(); ++i) f.get()[i] = c.rng.unit(); shared(c, f, [](const SphericalHarmonics<double, 0>& f, Rng& r) { Vec<double, 3> d(r.gauss(), r.gauss(), r.gauss()); SphericalHarmonics<double, 0> g = f; g.project(d, 1); ZonalHarmonics<double, 0> z(f); return hcomb(hd(f.eval(d)), hcomb(hd(f.dot(g)), hcomb(hd(z.eval(d.unit().z)), hd((f + g).eval(d))))); }); }
template <class C, class Push> void container(Ctx& c, Push push) { C a; int n = c.rng.below(40); for (int i = 0; i < n; ++i) push(a, std::string(1 + c.rng.below(30), 'a' + i % 26)); shared(c, a, [](const C& a, Rng& r) { u64 h = a.size(); for (size_t i = 0; i < (size_t)a.size(); ++i) h = hcomb(h, hstr(a[i].c_str())); C b = a; C d; d = b; h = hcomb(h, b.size() + d.size()); if (a.size()) h = hcomb(h, hstr(d[r.below(a.size())].c_str())); return h; }); }
SUITE("small-storage", 40, 2000) { container<SmallStorage<std::string, 8>>(c, [](auto& a, std::string s) { a.push_back(s); }); }
SUITE("deque", 40, 2000) { container<Deque<std::string, 8>>(c, [](auto& a, std::string s) { if (s.size() & 1) a.push_back(s); else a.push_front(s); }); }
// generators used by different threads, with and without a seed
template <class G> void gens(Ctx& c) { u64 seed = c.rng.next(); int dummy = 0; shared(c, dummy, [seed](const int&, Rng& r) { G g(seed ^ r.next()); Sampler<double> s(&g); u64 h = 0; for (int i = 0; i < 20; ++i) h = hcomb(h, hcomb(g.template rand<uint64_t>(), hvec(s.template unit<3>()))); std::vector<int> v{1, 2, 3, 4, 5, 6, 7}; permute<int>(v.data(), 7, g); for (int x : v) h = hcomb(h, x); G e; u64 a = e.template rand<uint64_t>(); G f; return hcomb(h, a == f.template rand<uint64_t>() && a == e.template rand<uint64_t>()); }); c.cover("generators"); }
TSUITE("lcrand", 40, 2000, gens<LCRand>) TSUITE("mtrand", 40, 2000, gens<MTRand>)
TSUITE("matrix-3", 40, 2000, (matrix<3, 3>)) TSUITE("matrix-dynamic", 40, 2000, (matrix<0, 0>)) TSUITE("permutation-4", 40, 2000, perm<4>) TSUITE("permutation-dynamic", 40, 2000, perm<0>) TSUITE("affine", 40, 2000, affine) TSUITE("path", 40, 2000, path) TSUITE("raster", 40, 2000, raster) TSUITE("noise-1", 40, 2000, noise<1>) TSUITE("noise-3", 40, 2000, noise<3>) TSUITE("harmonics", 40, 2000, harmonics)
SUITE("storage", 40, 2000) { GenericStorage<std::string, 0, STORAGE_SHARED> s(7); for (int i = 0; i < 7; ++i) s.get()[i] = std::string(1 + c.rng.below(30), 'x'); typedef GenericStorage<std::string, 0, STORAGE_SHARED> S; shared(c, s, [](const S& s, Rng& r) { S t = s, u(1); u = t; u64 h = 0; for (int i = 0; i < 7; ++i) h = hcomb(h, hstr(u.get()[i].c_str())); return h; }); }
