#include "vh.h"
#include <tuple>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/function/Dual.h>
using namespace vh; using namespace geom;

// an object is built from a list of numbers; equal lists must give equal objects with equal hashes
typedef std::vector<double> L;
template <class T> struct Mk;
template <class T, index_t N> struct Mk<Vec<T, N>> { static const int n = N; static Vec<T, N> make(const double* p) { Vec<T, N> v; for (int i = 0; i < N; ++i) v[i] = (T)p[i]; return v; } };
template <class T> struct Mk<Quat<T>> { static const int n = 4; static Quat<T> make(const double* p) { return Quat<T>(p[0], p[1], p[2], p[3]); } };
template <class T, index_t N> struct Mk<Ray<T, N>> { static const int n = 2 * N; static Ray<T, N> make(const double* p) { return Ray<T, N>(Mk<Vec<T, N>>::make(p), Mk<Vec<T, N>>::make(p + N)); } };
template <class T, index_t N> struct Mk<Rect<T, N>> { static const int n = 2 * N; static Rect<T, N> make(const double* p) { Rect<T, N> r; if constexpr (N == 1) { r.lo = p[0]; r.hi = p[1]; } else { r.lo = Mk<Vec<T, N>>::make(p); r.hi = Mk<Vec<T, N>>::make(p + N); } return r; } };
template <class T, index_t N> struct Mk<Sphere<T, N>> { static const int n = N + 1; static Sphere<T, N> make(const double* p) { return Sphere<T, N>(Mk<Vec<T, N>>::make(p), p[N]); } };
template <class T, index_t N> struct Mk<Plane<T, N>> { static const int n = N + 1; static Plane<T, N> make(const double* p) { Plane<T, N> q; q.normal = Mk<Vec<T, N>>::make(p); q.d = p[N]; return q; } };
template <class T, index_t N> struct Mk<Capsule<T, N>> { static const int n = 2 * N + 1; static Capsule<T, N> make(const double* p) { Capsule<T, N> q; q.p0 = Mk<Vec<T, N>>::make(p); q.p1 = Mk<Vec<T, N>>::make(p + N); q.radius = p[2 * N]; return q; } };
template <class T, index_t N> struct Mk<Cylinder<T, N>> { static const int n = 2 * N + 1; static Cylinder<T, N> make(const double* p) { Cylinder<T, N> q; q.p0 = Mk<Vec<T, N>>::make(p); q.p1 = Mk<Vec<T, N>>::make(p + N); q.radius = p[2 * N]; return q; } };
template <class T, index_t N> struct Mk<Simplex<T, N>> { static const int n = N * (N + 1); static Simplex<T, N> make(const double* p) { Simplex<T, N> s; s.n = N + 1; for (int i = 0; i <= N; ++i) s.pts[i] = Mk<Vec<T, N>>::make(p + i * N); return s; } };
template <class T, index_t M, index_t N, MatrixLayout Y> struct Mk<SimpleMatrix<T, M, N, Y>> { static const int n = M ? M * N : 6; static SimpleMatrix<T, M, N, Y> make(const double* p) { SimpleMatrix<T, M, N, Y> m(M ? M : 2, N ? N : 3); int k = 0; for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) m(i, j) = p[k++]; return m; } };
template <class T, index_t N> struct Mk<AffineTransform<T, N>> { static const int n = (N + 1) * N; static AffineTransform<T, N> make(const double* p) { AffineTransform<T, N> x; int k = 0; for (int i = 0; i < N; ++i) for (int j = 0; j <= N; ++j) x.mat(i, j) = p[k++]; return x; } };
template <class S> struct Mk<Extruded<S>> { static const int n = Mk<S>::n + 2; static Extruded<S> make(const double* p) { Extruded<S> e; e.base = Mk<S>::make(p); e.height = Mk<Rect<double, 1>>::make(p + Mk<S>::n); return e; } };
template <class S> struct Mk<Frustum<S>> { static const int n = Mk<S>::n + 2; static Frustum<S> make(const double* p) { Frustum<S> e; e.base = Mk<S>::make(p); e.height = Mk<Rect<double, 1>>::make(p + Mk<S>::n); return e; } };
template <class S> struct Mk<Dilated<S>> { static const int n = Mk<S>::n + 1; static Dilated<S> make(const double* p) { return Dilated<S>(Mk<S>::make(p), p[Mk<S>::n]); } };
template <class S> struct Mk<Oriented<S>> { static const int N = S::N; typedef AffineTransform<double, N> X; static const int n = Mk<S>::n + Mk<X>::n; static Oriented<S> make(const double* p) { return Oriented<S>(Mk<S>::make(p), Mk<X>::make(p + Mk<S>::n)); } };
template <class A, class B, class C> struct Mk<std::tuple<A, B, C>> { static const int n = 3; static std::tuple<A, B, C> make(const double* p) { return {(A)p[0], (B)p[1], (C)p[2]}; } };
template <class T> struct Mk<Dual<T>> { static const int n = 1; static Dual<T> make(const double* p) { return Dual<T>((T)p[0]); } };

template <class T> bool same_obj(const T& a, const T& b) { if constexpr (requires { a.origin; }) return a.origin == b.origin && a.direction == b.direction; else return a == b; }
template <class H, class T> H gh(const T& v) { return geom::hash<T, H>(v); }
template <class T, bool STD = true> void obj(Ctx& c) {
    const int n = Mk<T>::n; std::vector<double> p(n);
    int style = c.rng.below(3); for (auto& x : p) x = style == 0 ? (double)c.rng.range(-2, 2) : style == 1 ? c.rng.range(-1000, 1000) * .125 : c.rng.range(-100000, 100000);
    T a = T(Mk<T>::make(p.data())), b = T(Mk<T>::make(p.data()));
    auto h = gh<size_t>(a); auto h4 = gh<uint32_t>(a); auto h2 = gh<uint16_t>(a);
    c.check(same_obj(a, b), "equal-by-construction");
    c.check(gh<size_t>(b) == h && gh<uint32_t>(b) == h4 && gh<uint16_t>(b) == h2, "equal-objects-hash-differently");
    if constexpr (STD) c.check(std::hash<T>{}(a) == h, "std-hash");
    // negative zero equals zero
    { auto q = p; bool any = false; for (auto& x : q) if (x == 0) { x = std::signbit(x) ? 0. : -0.; any = true; } if (any) { T z = T(Mk<T>::make(q.data())); if (same_obj(a, z)) { c.check(gh<size_t>(z) == h && gh<uint32_t>(z) == h4, "negative-zero-hashes-differently"); c.cover("zero-signs"); } } }
    // objects carried through copies, assignment and containers
    { T z = b; z = a; std::vector<T> vv(3, a); vv.push_back(z); c.check(gh<size_t>(vv[3]) == h && gh<size_t>(vv[0]) == h, "copies-hash-differently"); }
    // each component contributes: four different changes of one of them cannot all collide
    { int k = c.rng.below(n), same = 0, same4 = 0, tries = 0; for (int t = 0; t < 4; ++t) { auto q = p; q[k] += (t + 1) * (c.rng.coin() ? 1 : -1) * (1 + (double)c.rng.below(4)); T z = T(Mk<T>::make(q.data())); if (style != 1) c.check(!same_obj(a, z), "different-objects-equal"); if (same_obj(a, z)) continue; ++tries; same += gh<size_t>(z) == h; same4 += gh<uint32_t>(z) == h4; } c.check(tries < 4 || (same < 4 && same4 < 4), "component-ignored-by-hash", [&](auto& o) { o << k; }); }
    if (n > 1) { int same = 0, tries = 0; for (int t = 0; t < 4; ++t) { auto q = p; for (auto& x : q) x = c.rng.range(-30000, 30000); T y = T(Mk<T>::make(q.data())); int i = c.rng.below(n), j = c.rng.below(n); if (q[i] == q[j]) continue; std::swap(q[i], q[j]); T z = T(Mk<T>::make(q.data())); ++tries; same += gh<size_t>(y) == gh<size_t>(z); } c.check(tries < 4 || same < 4, "order-ignored-by-hash"); }
    c.cover("objects"); u64 hh = 0; for (auto x : p) hh = hcomb(hh, hval(x)); c.nontrivial(hh);
}
TSUITE("vec2-double", 4000, 40000, (obj<Vec<double, 2>>))
TSUITE("vec3-float", 4000, 40000, (obj<Vec<float, 3>>))
TSUITE("vec4-int", 4000, 40000, (obj<Vec<int, 4>>))
TSUITE("vec6-double", 4000, 40000, (obj<Vec<double, 6>>))
TSUITE("quat", 4000, 40000, (obj<Quat<double>>))
TSUITE("ray", 4000, 40000, (obj<Ray<double, 3>>))
TSUITE("rect3", 4000, 40000, (obj<Rect<double, 3>>))
TSUITE("rect1", 4000, 40000, (obj<Rect<double, 1>>))
TSUITE("recti", 4000, 40000, (obj<Rect<int, 2>>))
TSUITE("sphere", 4000, 40000, (obj<Sphere<double, 3>>))
TSUITE("plane", 4000, 40000, (obj<Plane<double, 3>>))
TSUITE("capsule", 4000, 40000, (obj<Capsule<double, 3>>))
TSUITE("cylinder", 4000, 40000, (obj<Cylinder<double, 3>>))
TSUITE("simplex", 4000, 40000, (obj<Simplex<double, 3>>))
TSUITE("matrix", 4000, 40000, (obj<SimpleMatrix<double, 3, 4, MatrixLayout::ROW_MAJOR>>))
TSUITE("matrix-col", 4000, 40000, (obj<SimpleMatrix<float, 2, 2, MatrixLayout::COL_MAJOR>, false>))
TSUITE("matrix-dynamic", 4000, 40000, (obj<SimpleMatrix<double, 0, 0, MatrixLayout::ROW_MAJOR>>))
TSUITE("affine", 4000, 40000, (obj<AffineTransform<double, 3>>))
TSUITE("extruded", 4000, 40000, (obj<Extruded<Rect<double, 2>>>))
TSUITE("frustum", 4000, 40000, (obj<Frustum<Sphere<double, 2>>>))
TSUITE("dilated", 4000, 40000, (obj<Dilated<Rect<double, 3>>>))
TSUITE("oriented", 4000, 40000, (obj<Oriented<Rect<double, 3>>>))
TSUITE("tuple", 4000, 40000, (obj<std::tuple<int, double, float>, false>))
TSUITE("dual", 4000, 40000, (obj<Dual<double>>))

SUITE("partial-equality", 5000, 50000) { // members that equality ignores
    { Simplex<double, 3> a, b; for (auto& p : a.pts) p = Vec3d(c.rng.unit(), c.rng.unit(), c.rng.unit()); for (auto& p : b.pts) p = Vec3d(c.rng.unit(), c.rng.unit(), c.rng.unit()); int n = c.rng.below(5); a.n = b.n = n; for (int i = 0; i < n; ++i) b.pts[i] = a.pts[i]; c.check(a == b && gh<size_t>(a) == gh<size_t>(b), "simplex-unused-vertices"); if (n) { b = a; b.n = n - 1; c.check(!(a == b) && gh<size_t>(a) != gh<size_t>(b), "simplex-vertex-count"); } }
    { Dual<double> a(c.rng.range(-5, 5), c.rng.unit()), b(a.x, c.rng.unit()); c.check(a == b && gh<size_t>(a) == gh<size_t>(b) && std::hash<Dual<double>>{}(a) == std::hash<Dual<double>>{}(b), "dual-derivative"); }
    { std::unordered_set<Vec<int, 3>> s; std::set<std::array<int, 3>> r; for (int i = 0; i < 60; ++i) { std::array<int, 3> k{(int)c.rng.range(-2, 2), (int)c.rng.range(-2, 2), (int)c.rng.range(-2, 2)}; Vec<int, 3> v(k[0], k[1], k[2]); if (c.rng.chance(.3)) { c.check(s.erase(v) == r.erase(k), "set-erase"); } else { bool n1 = s.insert(v).second, n2 = r.insert(k).second; c.check(n1 == n2, "set-insert"); } } c.check(s.size() == r.size(), "set-size"); c.cover("sets"); }
    c.nontrivial(c.index);
}

// SipHash-2-4 with a 128-bit result, written from its specification
static u64 rot(u64 x, int b) { return x << b | x >> (64 - b); }
struct Sip { u64 v0, v1, v2, v3; void r(int n) { while (n--) { v0 += v1; v2 += v3; v1 = rot(v1, 13) ^ v0; v3 = rot(v3, 16) ^ v2; v0 = rot(v0, 32); v2 += v1; v0 += v3; v1 = rot(v1, 17) ^ v2; v3 = rot(v3, 21) ^ v0; v2 = rot(v2, 32); } } };
static void sip128(const unsigned char* p, size_t n, u64 k0, u64 k1, u64 out[2]) {
    Sip s{k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull ^ 0xee, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull};
    for (size_t b = 0; b <= n / 8; ++b) { u64 m = 0; size_t w = std::min<size_t>(8, n - b * 8); for (size_t i = 0; i < w; ++i) m |= (u64)p[b * 8 + i] << (8 * i); if (b == n / 8) m |= (u64)n << 56; s.v3 ^= m; s.r(2); s.v0 ^= m; }
    s.v2 ^= 0xee; s.r(4); out[0] = s.v0 ^ s.v1 ^ s.v2 ^ s.v3; s.v1 ^= 0xdd; s.r(4); out[1] = s.v0 ^ s.v1 ^ s.v2 ^ s.v3;
}
typedef unsigned __int128 u128;
SUITE("bytes", 20000, 200000) {
    size_t n = c.rng.chance(.7) ? c.rng.below(24) : c.rng.below(400); size_t off = c.rng.below(9);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[n + off]); for (size_t i = 0; i < n + off; ++i) buf[i] = c.rng.next(); // exactly sized: a stray read is an ASan error
    const unsigned char* p = buf.get() + off; u64 k0 = c.rng.coin() ? 0 : c.rng.next(), k1 = c.rng.coin() ? 0 : c.rng.next();
    u64 w[2]; sip128(p, n, k0, k1, w); u128 got = hash_bytes<u128>(((u128)k1 << 64) | k0, p, n);
    c.check((u64)(got >> 64) == w[0] && (u64)got == w[1], "siphash", [&](auto& o) { o << std::hex << (u64)(got >> 64) << (u64)got << " want " << w[0] << w[1] << " length " << n; });
    std::string s1((const char*)p, n), s2 = s1; c.check(hash_bytes<size_t>(k0, s1.data(), n) == hash_bytes<size_t>(k0, s2.data(), n), "narrow-bytes"); c.check(gh<size_t>(s1) == gh<size_t>(std::string_view(s2)) , "string-and-view");
    if (n) { s2[c.rng.below(n)] ^= 1 << c.rng.below(8); c.check(hash_bytes<size_t>(k0, s1.data(), n) != hash_bytes<size_t>(k0, s2.data(), n), "bit-ignored"); }
    c.cover("tail-" + std::to_string(n & 7)); c.nontrivial(hcomb(w[0], n));
}
FSUITE("siphash-vectors", 2) { // published vectors: key 00..0f, message of n bytes 00,01,..
    unsigned char m[64], k[16]; for (int i = 0; i < 64; ++i) m[i] = i; for (int i = 0; i < 16; ++i) k[i] = i; u64 k0, k1; memcpy(&k0, k, 8); memcpy(&k1, k + 8, 8);
    static const unsigned char want[2][16] = {{0xa3, 0x81, 0x7f, 0x04, 0xba, 0x25, 0xa8, 0xe6, 0x6d, 0xf6, 0x72, 0x14, 0xc7, 0x55, 0x02, 0x93}, {0xda, 0x87, 0xc1, 0xd8, 0x6b, 0x99, 0xaf, 0x44, 0x34, 0x76, 0x59, 0x11, 0x9b, 0x22, 0xfc, 0x45}};
    u128 g = hash_bytes<u128>(((u128)k1 << 64) | k0, m, c.index); unsigned char o[16]; u64 hi = g >> 64, lo = g; memcpy(o, &hi, 8); memcpy(o + 8, &lo, 8);
    c.check(!memcmp(o, want[c.index], 16), "published-vector"); c.cover("vectors"); c.nontrivial(c.index);
}
