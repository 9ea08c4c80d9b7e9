#include "vh.h"
#include "shapes.h"
#include "share.h"
using namespace geom;
template <class> struct is_capsule : std::false_type {}; template <class T, index_t N> struct is_capsule<Capsule<T, N>> : std::true_type {}; // declares that it can be hit by a ray, but does not define it
template <class S> u64 poke(const S& s, Rng& r) {
    typedef typename S::elem_t T; constexpr index_t N = S::N; typedef Vec<T, N> V; V p, d; for (index_t i = 0; i < N; ++i) p[i] = (T)r.uniform(-6, 6), d[i] = (T)r.gauss(); u64 h = 1;
    if constexpr (requires { s.contains(p); }) h = hcomb(h, s.contains(p)); if constexpr (requires { s.sdf(p); }) h = hcomb(h, hd(s.sdf(p))); if constexpr (requires { s.project(p); }) h = hcomb(h, hvec(s.project(p))); if constexpr (requires { s.normal(p); }) h = hcomb(h, hvec(s.normal(p)));
    if constexpr (requires { s.convex_support(d); }) h = hcomb(h, hvec(s.convex_support(d))); if constexpr (requires { s.bounds(); }) { auto b = s.bounds(); h = hcomb(h, hcomb(hvec(b.lo), hvec(b.hi))); } if constexpr (!is_capsule<S>::value && requires { s.intersect(Ray<T, N>(p, d)); }) { auto q = s.intersect(Ray<T, N>(p, d)); h = hcomb(h, hcomb(hd(q.lo), hd(q.hi))); }
    if constexpr (requires { s.clip(p); }) h = hcomb(h, hvec(s.clip(p))); if constexpr (requires { s.volume(); }) h = hcomb(h, hd(s.volume())); if constexpr (requires { s.measure(); }) h = hcomb(h, hd(s.measure())); if constexpr (requires { s.center(); }) h = hcomb(h, hvec(s.center())); { S copy = s; h = hcomb(h, copy == s); } return h; }
template <class S> void shape(Ctx& c) { RP ref; const S s = Gen<S>::make(c, ref); shared(c, s, [](const S& s, Rng& r) { return poke(s, r); }); }
template <class T, index_t N> void plane(Ctx& c) { Vec<T, N> n, p; for (index_t i = 0; i < N; ++i) n[i] = (T)c.rng.gauss(), p[i] = (T)c.rng.gauss(); Plane<T, N> s(n, p); shared(c, s, [](const Plane<T, N>& s, Rng& r) { Vec<T, N> p; for (index_t i = 0; i < N; ++i) p[i] = (T)r.uniform(-6, 6); return hcomb(hcomb(hd(s.distance(p)), s.contains(p)), hvec(s.project(p))); }); }
TSUITE("sphere", 30, 2000, (shape<Sphere<double, 3>>)) TSUITE("rect", 30, 2000, (shape<Rect<double, 3>>)) TSUITE("cylinder", 30, 2000, (shape<Cylinder<double, 3>>)) TSUITE("capsule", 30, 2000, (shape<Capsule<double, 3>>)) TSUITE("simplex", 30, 2000, (shape<Simplex<double, 3>>)) TSUITE("simplex-2", 30, 2000, (shape<Simplex<double, 2>>)) TSUITE("extruded", 30, 2000, (shape<Extruded<Sphere<double, 2>>>)) TSUITE("frustum", 30, 2000, (shape<Frustum<Rect<double, 2>>>)) TSUITE("dilated", 30, 2000, (shape<Dilated<Rect<double, 3>>>)) TSUITE("oriented-rect", 30, 2000, (shape<Oriented<Rect<double, 3>>>)) TSUITE("oriented-cylinder", 30, 2000, (shape<Oriented<Cylinder<double, 3>>>)) TSUITE("plane", 30, 2000, (plane<double, 3>))
