#include "vh.h"
#include <geomc/function/Utils.h>
#include <geomc/function/Dual.h>
using namespace vh; using namespace geom;
typedef __float128 q; typedef long double ld;
static q qabs(q x) { return x < 0 ? -x : x; }
static q qsqrt(q x) { if (x <= 0) return 0; q y = sqrtl((ld)x); for (int i = 0; i < 4; ++i) y = (y + x / y) / 2; return y; }
template <class T> q ulp(q x) { T a = (T)qabs(x); if (a == 0) return std::numeric_limits<T>::denorm_min(); T up = std::nextafter(a, std::numeric_limits<T>::infinity()); T dn = std::nextafter(a, (T)0); q u = (q)up - (q)a, d = (q)a - (q)dn; return u > d ? u : d; }
// products of T's are exact (float, double) or carry this relative error (long double) in __float128
template <class T> q slack(q m) { return sizeof(T) > 8 ? m * (q)0x1p-110 : m * (q)0x1p-111; }

template <class T> void quad(Ctx& c, T& a, T& b, T& x, T& y, double mag) {
    auto r = [&] { return (T)c.rng.logmag(-mag, mag) * (T)(1 + (ld)c.rng.unit()); };
    a = r(); b = r(); x = r(); y = r();
    int k = c.rng.below(4);
    if (k == 0) { x = a; y = b; auto nud = [&](T& v) { int n = c.rng.range(-3, 3); for (int i = 0; i < std::abs(n); ++i) v = std::nextafter(v, n > 0 ? (T)INFINITY : (T)-INFINITY); }; nud(x); nud(y); if (c.rng.coin()) std::swap(x, y); c.cover("near-cancelling"); }
    if (k == 1) { T* v[] = {&a, &b, &x, &y}; *v[c.rng.below(4)] = 0; }
    if (k == 2) { T s = (T)std::ldexp((T)1, c.rng.range(-8, 8)); x = a * s; y = b / s; c.cover("exactly-cancelling"); }
}
template <class T> void products(Ctx& c) {
    T a, b, x, y; quad(c, a, b, x, y, sizeof(T) == 4 ? 6 : 50);
    c.note = str([&](auto& o) { o << std::hexfloat << a << " " << b << " " << x << " " << y; });
    q p1 = (q)a * b, p2 = (q)x * y, d = p1 - p2, s = p1 + p2, sl = slack<T>(qabs(p1) + qabs(p2));
    q gd = diff_of_products<T>(a, b, x, y), gs = sum_of_products<T>(a, b, x, y), gn = sum_of_products<T>(a, b, -x, y);
    // the documented bound is 1.5 ulp; two grids meet at a power of two
    c.check(qabs(gd - d) <= (q)1.6 * ulp<T>(d) + sl, "diff_of_products", [&](auto& o) { o << "got " << (ld)gd << " want " << (ld)d; });
    c.check(qabs(gs - s) <= (q)1.6 * ulp<T>(s) + sl, "sum_of_products", [&](auto& o) { o << "got " << (ld)gs << " want " << (ld)s; });
    c.check(qabs(gn - d) <= (q)1.6 * ulp<T>(d) + sl, "sum_of_products-of-negated", [&](auto& o) { o << "got " << (ld)gn << " want " << (ld)d; });
    if (d != 0) c.maximum("ulps-diff", (double)(qabs(gd - d) / ulp<T>(d)));
    T z = c.rng.coin() ? (T)c.rng.logmag(-6, 6) : -(a * b);
    q m = p1 + z, gm = multiply_add<T>(a, b, z);
    c.check(qabs(gm - m) <= ulp<T>(m) + slack<T>(qabs(p1) + qabs((q)z)), "multiply_add", [&](auto& o) { o << "got " << (ld)gm << " want " << (ld)m; });
    u64 h = 0; for (T v : {a, b, x, y}) h = hcomb(h, hval((double)v)); c.nontrivial(h);
}
TSUITE("float", 400000, 4000000, (products<float>))
TSUITE("double", 400000, 4000000, (products<double>))
TSUITE("long-double", 200000, 2000000, (products<long double>))

template <class I> void integers(Ctx& c) {
    I lim = sizeof(I) == 4 ? 20000 : 1000000000; auto r = [&] { return (I)c.rng.range(std::is_signed_v<I> ? -lim : lim / 2, lim); };
    I a = r(), b = r(), x = r(), y = r(); if (!std::is_signed_v<I>) { x = c.rng.below(100); }
    c.check(diff_of_products<I>(a, b, x, y) == (I)(a * b - x * y), "diff"); c.check(sum_of_products<I>(a, b, x, y) == (I)(a * b + x * y), "sum"); c.check(multiply_add<I>(a, b, x) == (I)(a * b + x), "mad"); c.nontrivial(hcomb(hcomb(a, b), hcomb(x, y)));
}
TSUITE("int32", 100000, 1000000, (integers<int32_t>))
TSUITE("int64", 100000, 1000000, (integers<int64_t>))
TSUITE("uint64", 100000, 1000000, (integers<uint64_t>))

template <class T> void duals(Ctx& c) {
    typedef Dual<T> D; D v[4]; for (auto& d : v) d = D((T)c.rng.logmag(-3, 3), (T)c.rng.logmag(-3, 3));
    if (c.rng.chance(.4)) { v[2].x = v[0].x; v[3].x = v[1].x; v[2].dx = v[0].dx; v[3].dx = v[1].dx; if (c.rng.coin()) v[2].x = std::nextafter(v[2].x, (T)0); }
    q x[4], e[4]; for (int i = 0; i < 4; ++i) x[i] = v[i].x, e[i] = v[i].dx;
    auto chk = [&](D got, int sign, const char* w) {
        q d = x[0] * x[1] + sign * (x[2] * x[3]); c.check(qabs((q)got.x - d) <= (q)1.6 * ulp<T>(d) + slack<T>(qabs(x[0] * x[1]) * 2), w, [&](auto& o) { o << "value " << got.x << " want " << (ld)d; });
        q de = x[0] * e[1] + e[0] * x[1] + sign * (x[2] * e[3] + e[2] * x[3]), m = qabs(x[0] * e[1]) + qabs(e[0] * x[1]) + qabs(x[2] * e[3]) + qabs(e[2] * x[3]);
        c.check(qabs((q)got.dx - de) <= 4 * m * (q)std::numeric_limits<T>::epsilon(), w, [&](auto& o) { o << "derivative " << got.dx << " want " << (ld)de; });
    };
    chk(diff_of_products<D>(v[0], v[1], v[2], v[3]), -1, "dual-diff"); chk(sum_of_products<D>(v[0], v[1], v[2], v[3]), 1, "dual-sum");
    D m = multiply_add<D>(v[0], v[1], v[2]); q w = x[0] * x[1] + x[2], dw = x[0] * e[1] + e[0] * x[1] + e[2], mg = qabs(x[0] * e[1]) + qabs(e[0] * x[1]) + qabs(e[2]), eps = std::numeric_limits<T>::epsilon();
    c.check(qabs((q)m.x - w) <= 4 * eps * (qabs(x[0] * x[1]) + qabs(x[2])) && qabs((q)m.dx - dw) <= 4 * eps * mg, "dual-multiply_add");
    // components of complex numbers
    typedef std::complex<T> C; C z[4]; for (int i = 0; i < 4; ++i) z[i] = C(v[i].x, v[i].dx);
    auto cm = [&](C got, q re, q im, q mag, const char* n) { c.check(qabs((q)got.real() - re) <= 8 * eps * mag && qabs((q)got.imag() - im) <= 8 * eps * mag, n, [&](auto& o) { o << got; }); };
    q ar = x[0] * x[1] - e[0] * e[1], ai = x[0] * e[1] + e[0] * x[1], br = x[2] * x[3] - e[2] * e[3], bi = x[2] * e[3] + e[2] * x[3], mag = (qabs(x[0]) + qabs(e[0])) * (qabs(x[1]) + qabs(e[1])), mag2 = (qabs(x[2]) + qabs(e[2])) * (qabs(x[3]) + qabs(e[3]));
    cm(diff_of_products<C>(z[0], z[1], z[2], z[3]), ar - br, ai - bi, mag + mag2, "complex-diff"); cm(sum_of_products<C>(z[0], z[1], z[2], z[3]), ar + br, ai + bi, mag + mag2, "complex-sum");
    cm(multiply_add<C>(z[0], z[1], z[2]), ar + x[2], ai + e[2], mag + qabs(x[2]) + qabs(e[2]), "complex-multiply_add");
    u64 h = 0; for (auto d : v) h = hcomb(h, hval(d.x)); c.nontrivial(h);
}
TSUITE("dual-complex-double", 200000, 2000000, (duals<double>))
TSUITE("dual-complex-float", 200000, 2000000, (duals<float>))

template <class T> void quadratic(Ctx& c) {
    const q e = std::numeric_limits<T>::epsilon(); double mag = sizeof(T) == 4 ? 4 : 40;
    T a, b, k; int kind = c.rng.below(8);
    auto r = [&] { return (T)(c.rng.logmag(-mag, mag) * (1 + c.rng.unit())); };
    if (kind == 0) { T s = (T)c.rng.range(-999, 999), t = (T)c.rng.range(1, 99) * (c.rng.coin() ? 1 : -1); a = t * t; b = 2 * s * t; k = s * s; if (c.rng.coin()) { a = -a; b = -b; k = -k; } c.cover("double-roots"); } // (t x + s)^2, exact
    else if (kind == 1) { a = r(); b = 2 * a * (T)c.rng.uniform(-9, 9); k = (T)(((q)b * b) / (4 * (q)a)); int n = c.rng.range(-2, 2); for (int i = 0; i < std::abs(n); ++i) k = std::nextafter(k, n > 0 ? (T)INFINITY : (T)-INFINITY); c.cover("nearly-double"); }
    else if (kind == 2) { a = (T)c.rng.range(-9, 9); b = (T)c.rng.range(-9, 9); k = (T)c.rng.range(-9, 9); }
    else if (kind == 3) { a = 0; b = c.rng.chance(.3) ? 0 : r(); k = c.rng.chance(.3) ? 0 : r(); c.cover("not-quadratic"); }
    else if (kind == 4) { a = r(); b = r(); k = (T)(((q)b * b / a) * (q)c.rng.logmag(-8, -4)); c.cover("wide-apart"); }
    else if (kind == 5) { a = r(); b = c.rng.coin() ? 0 : r(); k = b == 0 ? r() : 0; c.cover("missing-terms"); }
    else { a = r(); b = r(); k = r(); }
    c.note = str([&](auto& o) { o << std::hexfloat << a << " " << b << " " << k; });
    T out[2] = {(T)1234, (T)5678}; bool got = quadratic_solve<T>(out, a, b, k);
    q A = a, B = b, C = k, d = B * B - 4 * A * C; bool want = d >= 0 && !(a == 0 && b == 0);
    // squares of T's are exact in __float128, so the sign of d is exact
    if (!c.check(got == want, "solvability", [&](auto& o) { o << got << ", discriminant " << (ld)d; })) return;
    if (!want) { c.check(out[0] == 1234 && out[1] == 5678, "results-altered-without-roots"); c.cover("no-roots"); c.nontrivial(hcomb(hval(a), hcomb(hval(b), hval(k)))); return; }
    q r0, r1; if (a == 0) r0 = r1 = -C / B; else { q sd = qsqrt(d); q s = B < 0 ? -(B - sd) / 2 : -(B + sd) / 2; r0 = s / A; r1 = s == 0 ? r0 : C / s; }
    q tol = 12 * e; q sd = d > 0 ? slack<T>(B * B + qabs(4 * A * C)) / d : 0; tol += sd;
    auto close = [&](q g, q w) { return qabs(g - w) <= tol * qabs(w); };
    bool ok = (close(out[0], r0) && close(out[1], r1)) || (close(out[0], r1) && close(out[1], r0));
    c.check(ok, "roots", [&](auto& o) { o << out[0] << ", " << out[1] << " want " << (ld)r0 << ", " << (ld)r1; });
    if (d == 0 || a == 0) c.check(out[0] == out[1], "single-root-not-doubled", [&](auto& o) { o << out[0] << ", " << out[1]; });
    c.cover("roots"); c.nontrivial(hcomb(hval(a), hcomb(hval(b), hval(k))));
}
TSUITE("quadratic-double", 600000, 6000000, (quadratic<double>))
TSUITE("quadratic-float", 600000, 6000000, (quadratic<float>))
