// The same operations on the same arguments, built several times: each time by another compiler and with other options, into a shared object.
// Nothing here may depend on the order in which a compiler evaluates arguments: every draw has a statement (or braces) of its own.
#include "vh.h"
#include "log.h"
#include <random>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/LUDecomp.h>
#include <geomc/linalg/Cholesky.h>
#include <geomc/linalg/Orthogonal.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Ray.h>
#include <geomc/function/Path.h>
#include <geomc/function/Raster.h>
#include <geomc/function/PerlinNoise.h>
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/function/Basis.h>
#include <geomc/function/Dual.h>
#include <geomc/function/Utils.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
#include <geomc/random/SampleGeometry.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Intersect.h>
#include <geomc/SmallStorage.h>
#include <geomc/Deque.h>
#include <geomc/Storage.h>
using namespace geom; using vh::Rng; using vh::Log; using vh::u64;
namespace {
template <class T, index_t N> void v(Log& L, const Vec<T, N>& x) { for (index_t i = 0; i < N; ++i) if constexpr (std::is_floating_point_v<T>) L.f(x[i]); else L.i((u64)x[i]); }
template <class T> void q4(Log& L, const Quat<T>& x) { for (index_t i = 0; i < 4; ++i) L.f(x[i]); }
template <class T> T num(Rng& r, double k = 4) { u64 how = r.below(8); return how == 0 ? (T)r.range(-3, 3) : how == 1 ? (T)(r.range(-8, 8) * .5) : (T)r.uniform(-k, k); }
template <class T> T pos(Rng& r) { T x = std::fabs(num<T>(r)); return x < (T).05 ? (T).5 : x; }
template <class T, index_t N> Vec<T, N> vec(Rng& r, double k = 4) { Vec<T, N> x; for (index_t i = 0; i < N; ++i) x[i] = num<T>(r, k); return x; }
template <class T, index_t N> Vec<T, N> dir(Rng& r) { Vec<T, N> x; do { for (index_t i = 0; i < N; ++i) x[i] = (T)r.uniform(-1, 1); } while (x.mag() < (T).1); return x; }
// ---- generators
template <class G> void draws(G& g, Rng& r, Log& L) {
    for (int k = 0; k < 24; ++k) switch (r.below(16)) {
        case 0: L.at("rand<unsigned>").i(g.template rand<unsigned>()); break; case 1: L.at("rand<int>").i((u64)g.template rand<int>()); break; case 2: L.at("rand<unsigned long>").i(g.template rand<unsigned long>()); break; case 3: L.at("rand<long long>").i((u64)g.template rand<long long>()); break;
        case 4: L.at("rand<float>").f(g.template rand<float>()); break; case 5: L.at("rand<double>").f(g.template rand<double>()); break; case 6: L.at("rand<bool>").i(g.template rand<bool>()); break;
        case 7: { unsigned h = 1 + (unsigned)r.below(1000); L.at("rand<unsigned>(hi)").i(g.template rand<unsigned>(h)); } break; case 8: { long long h = 1 + (long long)r.below(1ull << 40); L.at("rand<long long>(hi)").i((u64)g.template rand<long long>(h)); } break;
        case 9: { int lo = (int)r.range(-100, 0), hi = (int)r.range(1, 100); L.at("rand<int>(lo,hi)").i((u64)(long)g.template rand<int>(lo, hi)); } break; case 10: { double lo = r.uniform(-9, 0), hi = r.uniform(1, 9); L.at("rand<double>(lo,hi)").f(g.template rand<double>(lo, hi)); } break;
        case 11: { float lo = (float)r.uniform(-9, 0), hi = (float)r.uniform(1, 9); L.at("rand<float>(lo,hi)").f(g.template rand<float>(lo, hi)); } break; case 12: { double h = r.uniform(1, 9); L.at("rand<double>(hi)").f(g.template rand<double>(h)); } break;
        case 13: { u64 s = r.next(); g.rseed(s); } break; case 14: L.at("rand<unsigned long long>").i(g.template rand<unsigned long long>()); break; case 15: L.at("rand<long>").i((u64)g.template rand<long>()); break; }
    L.at("state after").i(g.rand32());
}
template <class G> void generator(Rng& r, Log& L) { G g(r.next()); draws(g, r, L); G h(g); draws(h, r, L); }
template <class T> void samplers(Rng& r, Log& L) {
    MTRand m(r.next()); LCRand l(r.next()); Random* g = r.coin() ? (Random*)&m : (Random*)&l; Sampler<T> s(g);
    for (int k = 0; k < 8; ++k) { T a = pos<T>(r), b = a + pos<T>(r); switch (r.below(15)) {
        case 0: v(L.at("unit"), s.template unit<3>()); break; case 1: v(L.at("unit"), s.template unit<5>()); break; case 2: v(L.at("solidball"), s.template solidball<3>()); break; case 3: v(L.at("shell"), s.template shell<3>(a, b)); break; case 4: v(L.at("box"), s.template box<4>()); break;
        case 5: { Vec<T, 3> lo = vec<T, 3>(r), hi = lo + Vec<T, 3>(1, 2, 3); v(L.at("box(lo,hi)"), s.template box<3>(lo, hi)); } break; case 6: { Vec<T, 2> lo = vec<T, 2>(r); v(L.at("box(rect)"), s.template box<2>(Rect<T, 2>(lo, lo + Vec<T, 2>(2, 1)))); } break;
        case 7: v(L.at("cap"), s.cap((T).7)); break; case 8: { Vec<T, 3> d = dir<T, 3>(r); v(L.at("cap(dir)"), s.cap(d, (T).7)); } break; case 9: { Vec<T, 3> d = dir<T, 3>(r); v(L.at("solidcap"), s.solidcap(d, (T).7, a, b)); } break; case 10: { Vec<T, 3> d = dir<T, 3>(r); v(L.at("oriented_disk"), s.oriented_disk(d, a)); } break;
        case 11: { Vec<T, 3> lo = vec<T, 3>(r); v(L.at("box(6)"), s.box(lo.x, lo.y, lo.z, lo.x + 1, lo.y + 2, lo.z + 3)); } break; case 12: { Vec<T, 2> lo = vec<T, 2>(r); v(L.at("box(4)"), s.box(lo.x, lo.y, lo.x + 1, lo.y + 2)); } break;
        case 13: v(L.at("disk"), s.disk(a)); v(L.at("arc"), s.arc((T)-.5, (T)2)); break; case 14: v(L.at("solidarc"), s.solidarc((T)-.5, (T)2, a, b)); break; }
        L.at("state after").i(g->rand32()); }
}
void permuted(Rng& r, Log& L) { MTRand m(r.next()); LCRand l(r.next()); XoshiroRand x(r.next()); size_t n = r.below(30); std::vector<int> a(n), b(n); for (size_t i = 0; i < n; ++i) a[i] = b[i] = (int)i;
    permute<int>(a.data(), n, m); permute<int>(b.data(), n, l); for (int k : a) L.at("permute").i(k); for (int k : b) L.at("permute").i(k); L.at("state after").i(m.rand32()); L.i(l.rand32()); L.i(x.rand64()); }
template <class T> void regions(Rng& r, Log& L) { std::mt19937_64 g(r.next()); Vec<T, 3> p = vec<T, 3>(r); T k = pos<T>(r); SampleShape<Sphere<T, 3>> a(Sphere<T, 3>(p, k)); SampleShape<Rect<T, 3>> b(Rect<T, 3>(p, p + Vec<T, 3>(1, k, 2))); Simplex<T, 3> s; for (int i = 0, n = 1 + (int)r.below(4); i < n; ++i) { Vec<T, 3> x = vec<T, 3>(r); s.insert(x); } SampleShape<Simplex<T, 3>> c(s);
    for (int i = 0; i < 4; ++i) { v(L.at("sphere"), a(g)); v(L.at("rect"), b(g)); v(L.at("simplex"), c(g)); } L.at("state after").i(g()); }
// ---- vectors
template <class T, index_t N> void vectors(Rng& r, Log& L) { Vec<T, N> a = vec<T, N>(r), b = dir<T, N>(r); T k = pos<T>(r); v(L.at("sum"), a + b); v(L, a - b); v(L, a * k); v(L, a / k); v(L, k * a); v(L, -a); v(L.at("unit"), b.unit()); L.at("dot").f(a.dot(b)); L.f(a.mag()); L.f(a.mag2()); L.f(a.dist(b)); v(L.at("reflect"), a.reflect_about(b)); v(L, a.bounce_on(b)); v(L.at("project"), a.project_on(b)); L.f(a.fraction_on(b)); v(L.at("length"), b.with_length(k)); v(L.at("mix"), a.mix(b, (T)r.unit())); L.at("angle").f(b.angle_to(a + b * (T)9)); v(L.at("round"), a.abs()); v(L, a.floor()); v(L, a.ceil()); v(L, a.round()); v(L, a.min(b)); v(L, a.max(b)); L.f(a.min()); L.f(a.max()); L.at("arg").i(a.argmax()); L.i(a.argmin()); L.i(a == b); L.i(a.is_zero());
    if constexpr (N == 3) { v(L.at("cross"), a ^ b); v(L.at("rotate"), a.rotate(b, k)); v(L.at("spherical"), b.to_spherical()); } if constexpr (N == 2) { v(L.at("polar"), b.to_polar()); v(L, b.from_polar()); v(L, a.left_perpendicular()); v(L, a.rotated(k)); } }
template <class T> void quats(Rng& r, Log& L) { Vec<T, 3> ax = dir<T, 3>(r), x = vec<T, 3>(r); T a = num<T>(r), t = (T)r.uniform(0, 1); Quat<T> p = Quat<T>::rotation_from_axis_angle(ax, a); Vec<T, 3> ay = dir<T, 3>(r); Quat<T> q = Quat<T>::rotation_from_axis_angle(ay, (T)r.uniform(-2, 2)); q4(L.at("rotation"), p); q4(L.at("product"), p * q); v(L.at("apply"), p * x); v(L, x * p); q4(L.at("slerp"), p.slerp(q, t)); q4(L.at("exp"), q.exp()); q4(L, q.log()); q4(L.at("scale"), p.rotation_scale(t)); v(L.at("velocity"), q.to_angular_velocity()); v(L.at("axis"), q.to_axis_angle_rotation()); q4(L.at("conj"), p.conj()); }
template <class M> void mx(Log& L, const M& m) { L.i(m.rows()); L.i(m.cols()); for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) L.f(m(i, j)); }
template <class T, index_t M, index_t N> SimpleMatrix<T, M, N> mtx(Rng& r, index_t m, index_t n) { SimpleMatrix<T, M, N> a(m, n); for (index_t i = 0; i < m; ++i) for (index_t j = 0; j < n; ++j) a(i, j) = num<T>(r); return a; }
template <class T, index_t N> void matrices(Rng& r, Log& L) { index_t n = N ? N : 1 + (index_t)r.below(6); typedef SimpleMatrix<T, N, N> Mx; Mx a = mtx<T, N, N>(r, n, n), b = mtx<T, N, N>(r, n, n), c(n, n); mul(&c, a, b); mx(L.at("product"), c); mx(L, a * b); mx(L.at("sum"), a + b); mx(L, a - b); mx(L, a * (T)3); mx(L.at("transpose"), transpose(a)); a *= (T)3; mx(L.at("in place"), a); L.at("equal").i(a == b); a.set_identity(); mx(L.at("identity"), a);
    PermutationMatrix<N> p(n); for (index_t i = 0; i < n; ++i) { index_t k = (index_t)r.below(n); p.swap_rows(i, k); } mx(L.at("permutation"), p * b); mx(L, b * p); L.at("sign").i((u64)(long)p.sign()); DiagMatrix<T, N, N> d(n, n); for (index_t i = 0; i < n; ++i) d.diagonal(i) = num<T>(r); mx(L.at("diagonal"), d * b); mx(L, b * d); }
template <class T, index_t N> void solving(Rng& r, Log& L) { index_t n = N ? N : 1 + (index_t)r.below(6); typedef SimpleMatrix<T, N, N> Mx; Mx a = mtx<T, N, N>(r, n, n); bool flat = r.chance(.2) && n > 1; for (index_t i = 0; i < n; ++i) if (flat) a(n - 1, i) = a(0, i); else a(i, i) += r.coin() ? 9 : -9;
    Mx x(n, n); L.at("det").f(det(a)); if (!flat) { L.at("inv").i(inv(&x, a)); mx(L, x); }
    std::vector<T> m(n * n), bx(n); for (index_t i = 0; i < n; ++i) { bx[i] = num<T>(r); for (index_t j = 0; j < n; ++j) m[i * n + j] = a(i, j); } std::vector<index_t> ord(n); bool par = false; std::vector<T> lu = m; L.at("plu").i(decomp_plu(lu.data(), n, n, ord.data(), &par)); L.i(par); for (auto o : ord) L.i(o); for (auto e : lu) L.f(e); lu = m; L.at("lup").i(decomp_lup(lu.data(), n, n, ord.data(), &par)); L.i(par); for (auto o : ord) L.i(o); for (auto e : lu) L.f(e);
    Mx s(n, n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) { T t = i == j ? (T)1 : (T)0; for (index_t k = 0; k < n; ++k) t += a(i, k) * a(j, k); s(i, j) = t; } L.at("cholesky").i(cholesky(&s)); mx(L, s); }
template <class T, index_t N> void bases(Rng& r, Log& L) { Vec<T, N> b[N]; for (auto& x : b) x = dir<T, N>(r); index_t n = 1 + (index_t)r.below(N - 1); Vec<T, N> nul[N]; L.at("nullspace").i(nullspace(b, n, nul)); for (index_t i = 0; i < N - n; ++i) v(L, nul[i]); v(L.at("orthogonal"), orthogonal(b)); Vec<T, N> o[N]; std::copy(b, b + N, o); orthogonalize(o, n); for (index_t i = 0; i < n; ++i) v(L.at("orthogonalize"), o[i]); orthonormalize(b, n); for (index_t i = 0; i < n; ++i) v(L.at("orthonormalize"), b[i]); }
template <class T, index_t N> AffineTransform<T, N> xform(Rng& r) { AffineTransform<T, N> x; for (int i = 0, n = 1 + (int)r.below(3); i < n; ++i) { AffineTransform<T, N> e; switch (r.below(3)) { case 0: e = translation(vec<T, N>(r)); break; case 1: { Vec<T, N> s; for (index_t j = 0; j < N; ++j) s[j] = pos<T>(r); e = scale(s); } break; default: if constexpr (N == 3) { Vec<T, 3> a = dir<T, 3>(r); e = rotation(a, num<T>(r)); } else e = rotation(num<T>(r)); } if (r.coin()) x *= e; else x = x / e; } return x; }
template <class T, index_t N> void transforms(Rng& r, Log& L) { AffineTransform<T, N> a = xform<T, N>(r), b = xform<T, N>(r); Vec<T, N> p = vec<T, N>(r); mx(L.at("matrix"), a.mat); mx(L.at("inverse"), a.inv); mx(L, a.inverse().mat); mx(L.at("product"), (a * b).mat); mx(L.at("quotient"), (a / b).mat); v(L.at("point"), a * p); v(L, p / a); v(L.at("vector"), a.apply_vector(p)); v(L.at("normal"), a.apply_normal(p)); v(L.at("inverse point"), a.apply_inverse(p)); Ray<T, N> ray(p, dir<T, N>(r)), w = a * ray; v(L.at("ray"), w.origin); v(L, w.direction); }
// ---- shapes
template <class S> struct Mk;
template <class T, index_t N> struct Mk<Sphere<T, N>> { static Sphere<T, N> make(Rng& r) { Vec<T, N> p = vec<T, N>(r); return Sphere<T, N>(p, pos<T>(r)); } };
template <class T, index_t N> struct Mk<Rect<T, N>> { static Rect<T, N> make(Rng& r) { Vec<T, N> p = vec<T, N>(r), q = p; for (index_t i = 0; i < N; ++i) q[i] += pos<T>(r); return Rect<T, N>(p, q); } };
template <class T> struct Mk<Cylinder<T, 3>> { static Cylinder<T, 3> make(Rng& r) { Vec<T, 3> p = vec<T, 3>(r), q = p + dir<T, 3>(r); return Cylinder<T, 3>(p, q, pos<T>(r)); } };
template <class T> struct Mk<Capsule<T, 3>> { static Capsule<T, 3> make(Rng& r) { Vec<T, 3> p = vec<T, 3>(r), q = p + dir<T, 3>(r); return Capsule<T, 3>(p, q, pos<T>(r)); } };
template <class T, index_t N> struct Mk<Simplex<T, N>> { static Simplex<T, N> make(Rng& r) { Simplex<T, N> s; Vec<T, N> o = vec<T, N>(r); s.insert(o); for (index_t i = 0; i < N; ++i) { Vec<T, N> e; e[i] = 2; Vec<T, N> d = dir<T, N>(r); s.insert(o + e + d * (T).5); } return s; } };
template <class S> struct Mk<Extruded<S>> { static Extruded<S> make(Rng& r) { typedef typename S::elem_t T; S b = Mk<S>::make(r); T lo = num<T>(r), k = pos<T>(r); return Extruded<S>(b, lo, lo + k); } };
template <class S> struct Mk<Frustum<S>> { static Frustum<S> make(Rng& r) { typedef typename S::elem_t T; S b = Mk<S>::make(r); T lo = pos<T>(r), k = pos<T>(r); return Frustum<S>(b, lo, lo + k); } };
template <class S> struct Mk<Dilated<S>> { static Dilated<S> make(Rng& r) { typedef typename S::elem_t T; S b = Mk<S>::make(r); return Dilated<S>(b, pos<T>(r)); } };
template <class S> struct Mk<Oriented<S>> { static Oriented<S> make(Rng& r) { S b = Mk<S>::make(r); return Oriented<S>(b, xform<typename S::elem_t, S::N>(r)); } };
template <class> struct no_rays : std::false_type {}; template <class T, index_t N> struct no_rays<Capsule<T, N>> : std::true_type {};
template <class S> void shape(Rng& r, Log& L) { typedef typename S::elem_t T; constexpr index_t N = S::N; S s = Mk<S>::make(r); for (int k = 0; k < 3; ++k) { Vec<T, N> p = vec<T, N>(r, 6), d = dir<T, N>(r);
    if constexpr (requires { s.contains(p); }) L.at("contains").i(s.contains(p)); if constexpr (requires { s.sdf(p); }) L.at("sdf").f(s.sdf(p)); if constexpr (requires { s.project(p); }) v(L.at("project"), s.project(p)); if constexpr (requires { s.normal(p); }) v(L.at("normal"), s.normal(p)); if constexpr (requires { s.convex_support(d); }) v(L.at("support"), s.convex_support(d)); if constexpr (requires { s.bounds(); }) { auto b = s.bounds(); v(L.at("bounds"), b.lo); v(L, b.hi); }
    if constexpr (!no_rays<S>::value && requires { s.intersect(Ray<T, N>(p, d)); }) { auto x = s.intersect(Ray<T, N>(p, d)); L.at("intersect").i(x.is_empty()); if (!x.is_empty()) { L.f(x.lo); L.f(x.hi); } } if constexpr (requires { s.clip(p); }) v(L.at("clip"), s.clip(p)); if constexpr (requires { s.volume(); }) L.at("volume").f(s.volume()); } { S t = s; L.at("equal").i(t == s); } }
template <class T> void shapes(Rng& r, Log& L) { switch (r.below(14)) { case 0: shape<Sphere<T, 3>>(r, L); break; case 1: shape<Rect<T, 3>>(r, L); break; case 2: shape<Cylinder<T, 3>>(r, L); break; case 3: shape<Capsule<T, 3>>(r, L); break; case 4: shape<Simplex<T, 3>>(r, L); break; case 5: shape<Simplex<T, 2>>(r, L); break; case 6: shape<Extruded<Sphere<T, 2>>>(r, L); break; case 7: shape<Extruded<Rect<T, 2>>>(r, L); break; case 8: shape<Frustum<Rect<T, 2>>>(r, L); break; case 9: shape<Dilated<Rect<T, 3>>>(r, L); break; case 10: shape<Oriented<Rect<T, 3>>>(r, L); break; case 11: shape<Oriented<Cylinder<T, 3>>>(r, L); break; case 12: shape<Rect<T, 2>>(r, L); break;
    default: { Vec<T, 3> n = dir<T, 3>(r), p = vec<T, 3>(r), x = vec<T, 3>(r); Plane<T, 3> pl(n, p); L.at("plane").f(pl.distance(x)); L.i(pl.contains(x)); v(L, pl.project(x)); } } }
template <class A, class B> void pair(Rng& r, Log& L) { A a = Mk<A>::make(r); B b = Mk<B>::make(r); auto ca = as_any_convex(a); auto cb = as_any_convex(b); L.at("collide").i(intersects(ca, cb)); L.i(intersects(cb, ca)); typedef typename A::elem_t T; Intersector<T, A::N> x; bool hit = x.intersects(ca, cb); L.at("intersector").i(hit); L.i(x.iterations); v(L, x.separation_axis); }
void collisions(Rng& r, Log& L) { switch (r.below(6)) { case 0: pair<Sphere<double, 3>, Rect<double, 3>>(r, L); break; case 1: pair<Oriented<Rect<double, 3>>, Oriented<Rect<double, 3>>>(r, L); break; case 2: pair<Simplex<double, 3>, Cylinder<double, 3>>(r, L); break; case 3: pair<Rect<double, 2>, Simplex<double, 2>>(r, L); break; case 4: pair<Frustum<Rect<double, 2>>, Capsule<double, 3>>(r, L); break; default: pair<Extruded<Rect<double, 2>>, Dilated<Rect<double, 3>>>(r, L); } }
// ---- functions
template <class T, index_t M, index_t N> void rasters(Rng& r, Log& L) { typedef PointType<index_t, M> GP; typename GP::point_t ext; index_t n = 1; for (index_t i = 0; i < M; ++i) { GP::iterator(ext)[i] = 1 + (index_t)r.below(5); n *= GP::iterator(ext)[i]; } Raster<T, T, M, N> p(ext); typename PointType<T, N>::point_t ab; for (index_t k = 0; k < N; ++k) PointType<T, N>::iterator(ab)[k] = num<T>(r); p.setAbyss(ab);
    for (index_t i = 0; i < n; ++i) { typename GP::point_t x; index_t k = i; for (index_t d = 0; d < M; ++d) { GP::iterator(x)[d] = k % GP::iterator(ext)[d]; k /= GP::iterator(ext)[d]; } typename PointType<T, N>::point_t e; for (index_t j = 0; j < N; ++j) PointType<T, N>::iterator(e)[j] = num<T>(r); p.set(x, e); }
    for (int k = 0; k < 8; ++k) { typename PointType<T, M>::point_t x; for (index_t d = 0; d < M; ++d) PointType<T, M>::iterator(x)[d] = num<T>(r, 9); EdgeBehavior eb = (EdgeBehavior)r.below(4); Interpolation ip = (Interpolation)r.below(3); auto y = p.sample(x, eb, ip); L.at(ip == INTERP_NEAREST ? "nearest" : ip == INTERP_LINEAR ? "linear" : "cubic"); for (index_t j = 0; j < N; ++j) L.f(PointType<T, N>::iterator(y)[j]); } }
template <class T, index_t N> void noise(Rng& r, Log& L) { LCRand g(r.next()); PerlinNoise<T, N> p(&g); typedef PointType<T, N> PT; for (int k = 0; k < 4; ++k) { typename PT::point_t x; for (index_t i = 0; i < N; ++i) PT::iterator(x)[i] = num<T>(r, 300); L.at("eval").f(p.eval(x)); auto d = p.gradient(x); L.at("gradient").f(d.first); for (index_t i = 0; i < N; ++i) L.f(PT::iterator(d.second)[i]); } L.at("state after").i(g.rand32()); }
void harmonics(Rng& r, Log& L) { index_t n = 1 + (index_t)r.below(8); SphericalHarmonics<double, 0> f(n), g(n); for (index_t i = 0; i < f.size(); ++i) f.get()[i] = r.uniform(-1, 1); for (index_t i = 0; i < g.size(); ++i) g.get()[i] = r.uniform(-1, 1); Vec<double, 3> d = dir<double, 3>(r).unit(); L.at("eval").f(f.eval(d)); L.at("dot").f(f.dot(g)); L.at("sum").f((f + g).eval(d)); g.project(d, .5); for (index_t i = 0; i < g.size(); ++i) L.at("project").f(g.get()[i]); ZonalHarmonics<double, 0> z(f); for (index_t i = 0; i < z.bands(); ++i) L.at("zonal").f(z.get()[i]); f.convolve(z); for (index_t i = 0; i < f.size(); ++i) L.at("convolve").f(f.get()[i]); f.normalize(); for (index_t i = 0; i < f.size(); ++i) L.at("normalize").f(f.get()[i]);
    index_t l = (index_t)r.below(9), m = (index_t)r.below(l + 1); double x = r.uniform(-1, 1); L.at("legendre").f(legendre(l, m, x)); L.f(legendre(l, x)); L.f(legendre_integral(l, x)); L.at("chebyshev").f(chebyshev((index_t)1, l, x)); L.f(chebyshev((index_t)2, l, x)); }
void paths(Rng& r, Log& L) { Path<double, 3> p; int n = 1 + (int)r.below(6); for (int i = 0; i < n; ++i) { Vec<double, 3> a = vec<double, 3>(r), b = vec<double, 3>(r); p.appendKnot(a, b); } for (int k = 0; k < 5; ++k) v(L.at("eval"), p.eval(r.uniform(-1, n + 1))); }
template <class O> void dg(Log& L, const O& o) { L.i(Digest<O, size_t>{}(o)); }
void digests(Rng& r, Log& L) { Vec<double, 3> a = vec<double, 3>(r); Vec<int, 4> b; for (int i = 0; i < 4; ++i) b[i] = (int)r.range(-9, 9); dg(L.at("vec"), a); dg(L, b); Vec<double, 3> ax = dir<double, 3>(r); dg(L.at("quat"), Quat<double>::rotation_from_axis_angle(ax, 1)); dg(L.at("sphere"), Mk<Sphere<double, 3>>::make(r)); dg(L.at("rect"), Mk<Rect<double, 3>>::make(r)); dg(L.at("simplex"), Mk<Simplex<double, 3>>::make(r)); dg(L.at("cylinder"), Mk<Cylinder<double, 3>>::make(r)); dg(L.at("oriented"), Mk<Oriented<Rect<double, 3>>>::make(r)); dg(L.at("transform"), xform<double, 3>(r)); dg(L.at("dual"), Dual<double>(a.x, a.y)); dg(L.at("int"), (int)r.range(-99, 99)); dg(L.at("extruded"), Mk<Extruded<Rect<double, 2>>>::make(r)); dg(L.at("frustum"), Mk<Frustum<Rect<double, 2>>>::make(r)); dg(L.at("dilated"), Mk<Dilated<Rect<double, 3>>>::make(r)); dg(L.at("capsule"), Mk<Capsule<double, 3>>::make(r));
    unsigned char by[40]; for (auto& x : by) x = (unsigned char)r.next(); size_t n = r.below(41); u64 key = r.next(); L.at("bytes").i(hash_bytes<size_t>(key, by, n)); L.at("many").i(hash_many<size_t>(key, a, b, (int)n)); L.at("combine").i(hash_combine(key, (u64)n)); }
void containers(Rng& r, Log& L) { SmallStorage<int, 4> a; Deque<int, 4> d; for (int k = 0, n = (int)r.below(60); k < n; ++k) { int x = (int)r.below(100); switch (r.below(6)) { case 0: case 1: a.push_back(x); d.push_back(x); break; case 2: d.push_front(x); break; case 3: if (d.size()) L.at("pop").i(*d.pop_front()); break; case 4: if (d.size()) L.at("pop").i(*d.pop_back()); if (a.size()) a.pop_back(); break; case 5: { size_t m = r.below(12); a.resize(m, 7); } break; } L.at("capacity").i(a.capacity()); L.i(d.capacity()); L.at("size").i(a.size()); L.i(d.size()); } for (size_t i = 0; i < a.size(); ++i) L.at("small").i(a[i]); for (index_t i = 0; i < (index_t)d.size(); ++i) L.at("deque").i(d[i]); }
template <class F> std::string text(F f) { std::ostringstream o; f(o); return o.str(); }
void texts(Rng& r, Log& L) { Vec<double, 3> a; for (int i = 0; i < 3; ++i) a[i] = r.range(-99, 99) * .25; Vec<int, 2> b; for (int i = 0; i < 2; ++i) b[i] = (int)r.range(-9, 9); L.at("vec").s(text([&](auto& o) { o << a; })); L.s(text([&](auto& o) { o << b; })); L.at("quat").s(text([&](auto& o) { o << Quat<double>(a, 2); })); L.at("ray").s(text([&](auto& o) { o << Ray<double, 3>(a, -a); })); SimpleMatrix<double, 2, 3> m; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) m(i, j) = r.range(-99, 99); L.at("matrix").s(text([&](auto& o) { o << m; })); L.at("transform").s(text([&](auto& o) { o << translation(a); })); L.at("dual").s(text([&](auto& o) { o << Dual<double>(a.x, a.y); })); }
template <class T> void dl(Log& L, const Dual<T>& d) { L.f(d.x); L.f(d.dx); }
void numbers(Rng& r, Log& L) { Dual<double> a, b; a.x = num<double>(r); a.dx = 1; b.x = pos<double>(r); b.dx = num<double>(r); dl(L.at("dual"), a + b); dl(L, a * b); dl(L, a / b); dl(L, sqrt(b)); dl(L, std::sin(a)); dl(L, std::exp(a)); dl(L, std::log(b)); dl(L, std::atan2(a, b)); dl(L, std::pow(b, a)); long x = r.range(-99, 99), y = r.range(1, 9); L.at("modulo").i((u64)positive_mod(x, y)); L.i((u64)ceil_div(x, y)); L.i((u64)floor_div(x, y)); L.i((u64)snap(x, y)); double p = num<double>(r), q = num<double>(r), s = num<double>(r), t = num<double>(r); L.at("products").f(diff_of_products(p, q, s, t)); L.f(sum_of_products(p, q, s, t)); L.f(multiply_add(p, q, s)); double z[2] = {0, 0}; bool has = quadratic_solve(z, p, q, s); L.at("quadratic").i(has); if (has) { L.f(z[0]); L.f(z[1]); } L.at("angle").f(angle_to(p, q)); double c4[4] = {p, q, s, t}; L.at("interpolate").f(interp_cubic(.3, c4)); double u[2] = {.25, .75}; L.f(interp_linear(u, c4, 2)); L.at("mix").f(mix(.3, p, q)); }
}
static void run_group(const char* g, u64 seed, Log& L) { Rng r(seed); std::string n = g; bool two = r.coin();
    if (n == "lcrand") generator<LCRand>(r, L); else if (n == "mtrand") generator<MTRand>(r, L); else if (n == "xoshiro") generator<XoshiroRand>(r, L); else if (n == "samplers") { if (two) samplers<double>(r, L); else samplers<float>(r, L); }
    else if (n == "permute") permuted(r, L); else if (n == "regions") { if (two) regions<double>(r, L); else regions<float>(r, L); }
    else if (n == "vectors") { switch (r.below(5)) { case 0: vectors<double, 2>(r, L); break; case 1: vectors<double, 3>(r, L); break; case 2: vectors<double, 4>(r, L); break; case 3: vectors<float, 3>(r, L); break; default: vectors<double, 5>(r, L); } }
    else if (n == "quaternions") { if (two) quats<double>(r, L); else quats<float>(r, L); } else if (n == "matrices") { switch (r.below(4)) { case 0: matrices<double, 2>(r, L); break; case 1: matrices<double, 4>(r, L); break; case 2: matrices<float, 3>(r, L); break; default: matrices<double, 0>(r, L); } }
    else if (n == "solving") { switch (r.below(5)) { case 0: solving<double, 2>(r, L); break; case 1: solving<double, 3>(r, L); break; case 2: solving<double, 4>(r, L); break; case 3: bases<double, 4>(r, L); break; default: solving<double, 0>(r, L); } } else if (n == "transforms") { if (two) transforms<double, 3>(r, L); else transforms<double, 2>(r, L); }
    else if (n == "shapes") shapes<double>(r, L); else if (n == "collisions") collisions(r, L); else if (n == "rasters") { switch (r.below(3)) { case 0: rasters<double, 1, 1>(r, L); break; case 1: rasters<double, 2, 3>(r, L); break; default: rasters<double, 3, 1>(r, L); } } else if (n == "noise") { switch (r.below(3)) { case 0: noise<double, 1>(r, L); break; case 1: noise<double, 2>(r, L); break; default: noise<double, 3>(r, L); } }
    else if (n == "harmonics") harmonics(r, L); else if (n == "paths") paths(r, L); else if (n == "digests") digests(r, L); else if (n == "containers") containers(r, L); else if (n == "text") texts(r, L); else if (n == "numbers") numbers(r, L); else abort(); }
extern "C" __attribute__((visibility("default"))) void vh_run(const char* group, u64 seed, Log* log) { run_group(group, seed, *log); }
