#include "vh.h"
#include "shapes.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Ray.h>
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/function/PerlinNoise.h>
#include <geomc/function/Dual.h>
#include <geomc/function/Raster.h>
#include <geomc/function/Path.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
#include <geomc/SmallStorage.h>
#include <geomc/Deque.h>
using namespace geom; using namespace vh;
// Objects default-constructed in memory that nobody wrote: everything reachable through the interface is then read, and a decision taken on it.
static u64 hd(double v) { return v != v ? 0x7ff8 : hval(v); }
template <class T, index_t N> u64 hv(const Vec<T, N>& v) { u64 h = 3; for (index_t i = 0; i < N; ++i) h = hcomb(h, hd((double)v[i])); return h; }
template <class O, class F> void fresh(Ctx& c, F f) { // heap memory, so that no stale stack frame defines it; twice, so that the values can be compared as well
    O* a = new O(); u64* garbage = new u64[64]; for (int i = 0; i < 64; ++i) garbage[i] = c.rng.next(); delete[] garbage; O* b = new O(); u64 ha = f(*a), hb = f(*b);
    c.check(ha == hb, "defined-by-construction"); O d(*a); c.check(f(d) == ha, "copy"); O e = *b; e = *a; c.check(f(e) == ha, "assigned"); delete a; delete b; c.cover("fresh-objects"); c.nontrivial(c.rng.next()); }
template <class T, index_t N> void vec(Ctx& c) { fresh<Vec<T, N>>(c, [](const Vec<T, N>& v) { return hcomb(hv(v), v.is_zero()); }); }
template <class T, index_t N> void ray(Ctx& c) { fresh<Ray<T, N>>(c, [](const Ray<T, N>& v) { return hcomb(hv(v.origin), hv(v.direction)); }); }
void quat(Ctx& c) { fresh<Quat<double>>(c, [](const Quat<double>& q) { return hcomb(hd(q.x), hcomb(hd(q.y), hcomb(hd(q.z), hd(q.w)))); }); }
void dual(Ctx& c) { fresh<Dual<double>>(c, [](const Dual<double>& q) { return hcomb(hd(q.x), hd(q.dx)); }); }
template <class M> u64 hm(const M& m) { u64 h = m.rows(); for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) h = hcomb(h, hd((double)m(i, j))); return h; }
template <class M> void mtx(Ctx& c) { fresh<M>(c, [](const M& m) { return hm(m); }); }
void affine(Ctx& c) { fresh<AffineTransform<double, 3>>(c, [](const AffineTransform<double, 3>& x) { return hcomb(hm(x.mat), hm(x.inv)); }); }
template <class S> void shape(Ctx& c) { fresh<S>(c, [](const S& s) { typedef typename S::elem_t T; constexpr index_t N = S::N; Vec<T, N> p; p[0] = 3; p[1] = 1; u64 h = 1;
    if constexpr (requires { s.contains(p); }) h = hcomb(h, s.contains(p)); if constexpr (requires { s.sdf(p); }) h = hcomb(h, hd(s.sdf(p))); if constexpr (requires { s.convex_support(p); }) h = hcomb(h, hv(s.convex_support(p)));
    if constexpr (requires { s.bounds(); }) { auto b = s.bounds(); h = hcomb(h, hcomb(hv(b.lo), hv(b.hi))); } return h; }); }
template <class C> void cont(Ctx& c) { fresh<C>(c, [](const C& s) { C t = s; for (int i = 0; i < 20; ++i) t.push_back(i); u64 h = s.size(); for (int i = 0; i < 20; ++i) h = hcomb(h, t[i]); return h; }); }
TSUITE("vec-2", 4, 20, (vec<float, 2>)) TSUITE("vec-3", 4, 20, (vec<double, 3>)) TSUITE("vec-4", 4, 20, (vec<int, 4>)) TSUITE("vec-7", 4, 20, (vec<double, 7>)) TSUITE("ray", 4, 20, (ray<double, 3>)) TSUITE("quat", 4, 20, quat) TSUITE("dual", 4, 20, dual) TSUITE("matrix-3", 4, 20, (mtx<SimpleMatrix<double, 3, 3>>)) TSUITE("permutation-4", 4, 20, (mtx<PermutationMatrix<4>>)) TSUITE("affine", 4, 20, affine)
TSUITE("sphere", 4, 20, (shape<Sphere<double, 3>>)) TSUITE("rect", 4, 20, (shape<Rect<double, 3>>)) TSUITE("cylinder", 4, 20, (shape<Cylinder<double, 3>>)) TSUITE("capsule", 4, 20, (shape<Capsule<double, 3>>)) TSUITE("extruded", 4, 20, (shape<Extruded<Sphere<double, 2>>>)) TSUITE("oriented", 4, 20, (shape<Oriented<Rect<double, 3>>>)) TSUITE("dilated", 4, 20, (shape<Dilated<Rect<double, 3>>>)) TSUITE("frustum", 4, 20, (shape<Frustum<Rect<double, 2>>>)) TSUITE("small", 4, 20, (cont<SmallStorage<int, 4>>)) TSUITE("deque", 4, 20, (cont<Deque<int, 4>>))
template <index_t N> void zero(Ctx& c) { fresh<SphericalHarmonics<double, N>>(c, [](const SphericalHarmonics<double, N>& f) { u64 h = f.size(); for (index_t i = 0; i < f.size(); ++i) h = hcomb(h, hd(f.get()[i])); return h; }); }
TSUITE("harmonics", 4, 20, zero<3>)
template <class G> void gen(Ctx& c) { fresh<int>(c, [](int) { return 1; }); u64 s = c.rng.next(); G* a = new G(s); G* b = new G(s); u64 h = 0, k = 0; for (int i = 0; i < 700; ++i) h = hcomb(h, a->template rand<uint32_t>()), k = hcomb(k, b->template rand<uint32_t>()); c.check(h == k, "seeded"); delete a; delete b; G* e = new G(); c.check(e->template rand<uint32_t>() + 1ull > 0, "unseeded"); delete e; }
TSUITE("mtrand", 4, 20, gen<MTRand>) TSUITE("lcrand", 4, 20, gen<LCRand>)
