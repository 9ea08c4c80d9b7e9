#include "vh.h"
#include <geomc/function/Utils.h>
using namespace vh; using namespace geom;
typedef __int128 big; typedef long double ld;
static std::string bs(big v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; do { s = char('0' + int(u % 10)) + s; u /= 10; } while (u); return n ? "-" + s : s; }
static big fdiv(big a, big b) { big q = a / b; if (a % b != 0 && ((a % b < 0) != (b < 0))) --q; return q; }

template <class T> T some_int(Ctx& c) {
    typedef std::numeric_limits<T> L;
    switch (c.rng.below(5)) {
        case 0: return (T)c.rng.next();
        case 1: return L::max() - (T)c.rng.below(5);
        case 2: return L::min() + (T)c.rng.below(5);
        default: return (T)(std::is_signed_v<T> ? c.rng.range(-20, 20) : c.rng.range(0, 40));
    }
}
template <class T> void ints(Ctx& c) {
    T a = some_int<T>(c), b = some_int<T>(c); if (b == 0) b = 1;
    if (std::is_signed_v<T> && b == (T)-1 && a == std::numeric_limits<T>::min()) return; // not representable
    big A = a, B = b; c.note = bs(A) + " and " + bs(B);
    big fl = fdiv(A, B), ce = -fdiv(-A, B), mod = A - B * fdiv(A, B);
    if (b > 0) { c.check((big)positive_mod<T>(a, b) == mod, "positive_mod", [&](auto& o) { o << bs((big)positive_mod<T>(a, b)); }); c.cover("mod"); if (a < 0) c.cover("negative-mod"); }
    c.check((big)floor_div<T>(a, b) == fl, "floor_div", [&](auto& o) { o << bs((big)floor_div<T>(a, b)); });
    c.check((big)ceil_div<T>(a, b) == ce, "ceil_div", [&](auto& o) { o << bs((big)ceil_div<T>(a, b)); });
    if (b > 0 && B * ce <= (big)std::numeric_limits<T>::max() && B * ce >= (big)std::numeric_limits<T>::min()) c.check((big)snap<T>(a, b) == B * ce, "snap", [&](auto& o) { o << bs((big)snap<T>(a, b)); });
    { T lo = some_int<T>(c), hi = some_int<T>(c); if (lo > hi) std::swap(lo, hi); T r = geom::clamp<T>(a, lo, hi); c.check(r == (a < lo ? lo : a > hi ? hi : a), "clamp"); }
    bool p2 = false; for (int k = 0; k < 63; ++k) p2 = p2 || A == ((big)1 << k); if (A == ((big)1 << 63)) p2 = true;
    c.check(is_power_of_two<T>(a) == p2, "is_power_of_two"); if (p2) c.cover("powers");
    T pw = (T)((u64)1 << c.rng.below(sizeof(T) * 8 - 1)); c.check(is_power_of_two<T>(pw), "is_power_of_two-of-power"); c.check(pw < 4 || !is_power_of_two<T>((T)(pw + 1)), "is_power_of_two-of-power+1");
    c.cover((a < 0) != (b < 0) ? "mixed-signs" : "same-signs"); c.nontrivial(hcomb((u64)a, (u64)b));
}
TSUITE("int8", 200000, 2000000, (ints<int8_t>))
TSUITE("int16", 200000, 2000000, (ints<int16_t>))
TSUITE("int32", 400000, 4000000, (ints<int32_t>))
TSUITE("int64", 400000, 4000000, (ints<int64_t>))
TSUITE("uint8", 200000, 2000000, (ints<uint8_t>))
TSUITE("uint32", 400000, 4000000, (ints<uint32_t>))
TSUITE("uint64", 400000, 4000000, (ints<uint64_t>))

template <class T> void reals(Ctx& c) {
    const ld e = std::numeric_limits<T>::epsilon();
    T b = (T)std::abs(c.rng.logmag(-2, 3)), a = c.rng.chance(.3) ? (T)(b * (T)c.rng.range(-9, 9)) : (T)c.rng.logmag(-3, 5);
    c.note = str([&](auto& o) { o << a << " and " << b; });
    ld A = a, B = b, tol = 4 * e * (fabsl(A) + B);
    ld m = positive_mod<T>(a, b);
    c.check(m >= -tol && m <= B + tol, "positive_mod-range", [&](auto& o) { o << m; });
    ld d = (A - m) / B; c.check(fabsl(d - roundl(d)) * B <= tol * 2, "positive_mod-congruence", [&](auto& o) { o << m; });
    { ld q = floor_div<T>(a, b), x = A / B; c.check(q == floorl(q) && q <= x + 4 * e * (1 + fabsl(x)) && q + 1 >= x - 4 * e * (1 + fabsl(x)), "floor_div", [&](auto& o) { o << q; }); }
    { ld q = ceil_div<T>(a, b), x = A / B; c.check(q == floorl(q) && q >= x - 4 * e * (1 + fabsl(x)) && q - 1 <= x + 4 * e * (1 + fabsl(x)), "ceil_div", [&](auto& o) { o << q; });
      ld s = snap<T>(a, b); c.check(fabsl(s - q * B) <= tol, "snap", [&](auto& o) { o << s; }); }
    // shortest turn between two angles, anywhere on the line
    { T a0 = (T)c.rng.logmag(-2, c.rng.coin() ? .8 : 3), a1 = c.rng.chance(.1) ? a0 : c.rng.chance(.2) ? (T)(a0 + M_PI * c.rng.range(-3, 3)) : (T)c.rng.logmag(-2, 2);
      ld t = angle_to<T>(a0, a1), at = 20 * e * (8 + fabsl(a0) + fabsl(a1)); const ld P = acosl(-1);
      c.check(fabsl(t) <= P + at, "angle_to-range", [&](auto& o) { o << a0 << "->" << a1 << ": " << t; });
      ld k = ((ld)a0 + t - (ld)a1) / (2 * P); c.check(fabsl(k - roundl(k)) * 2 * P <= at, "angle_to-arrives", [&](auto& o) { o << a0 << "->" << a1 << ": " << t; });
      if (fabsl(a0) > 7) c.cover("many-turns"); }
    { T dg = (T)c.rng.logmag(-2, 4); const ld P = acosl(-1); c.near(radians<T>(dg), dg * P / 180, 4 * e * fabsl(dg), "radians"); c.near(degrees<T>(dg), dg * 180 / P, 300 * e * fabsl(dg), "degrees"); }
    { T lo = (T)c.rng.logmag(-2, 4), hi = (T)c.rng.logmag(-2, 4); if (lo > hi) std::swap(lo, hi); c.check(geom::clamp<T>(a, lo, hi) == (a < lo ? lo : a > hi ? hi : a), "clamp"); }
    { T p = (T)c.rng.logmag(-4, 4), q = (T)c.rng.logmag(-4, 4), t = c.rng.chance(.2) ? (T)c.rng.below(2) : (T)c.rng.uniform(-1.5, 2.5); ld r = mix<T, T>(t, p, q), w = (1 - (ld)t) * p + (ld)t * q;
      c.check(fabsl(r - w) <= 4 * e * (fabsl((1 - (ld)t) * p) + fabsl((ld)t * q) + fabsl(p)), "mix", [&](auto& o) { o << "mix(" << t << "," << p << "," << q << ") = " << r << " want " << w; });
      c.near(mix<T, T>(0, p, q), p, e * fabsl(p), "mix-at-0"); c.near(mix<T, T>(1, p, q), q, e * fabsl(q), "mix-at-1"); }
    c.nontrivial(hcomb(hval(a), hval(b)));
}
TSUITE("double", 400000, 4000000, (reals<double>))
TSUITE("float", 400000, 4000000, (reals<float>))

static ld catmull(int k, ld s) { // weight of the k-th of four samples
    switch (k) { case 0: return .5L * (-s + 2 * s * s - s * s * s); case 1: return .5L * (2 - 5 * s * s + 3 * s * s * s); case 2: return .5L * (s + 4 * s * s - 3 * s * s * s); default: return .5L * (-s * s + s * s * s); }
}
template <class T> void interp(Ctx& c) {
    const ld e = std::numeric_limits<T>::epsilon();
    int dim = c.rng.range(1, 4); bool cubic = c.rng.coin(); int base = cubic ? 4 : 2, n = 1; for (int i = 0; i < dim; ++i) n *= base;
    std::vector<T> s(dim), p(n); for (auto& x : s) x = c.rng.chance(.15) ? (T)c.rng.below(2) : (T)c.rng.unit(); for (auto& x : p) x = (T)c.rng.uniform(-5, 5);
    if (c.rng.chance(.3)) for (auto& x : p) x = 0; // a single spike
    if (c.rng.chance(.3)) { int k = c.rng.below(n); for (int i = 0; i < n; ++i) if (i != k) p[i] = 0; else p[i] = 1; }
    ld want = 0; for (int i = 0; i < n; ++i) { ld w = 1; int q = i; for (int k = 0; k < dim; ++k) { int dgt = q % base; q /= base; w *= cubic ? catmull(dgt, s[k]) : dgt ? (ld)s[k] : 1 - (ld)s[k]; } want += w * p[i]; }
    ld got = cubic ? interp_cubic(s.data(), p.data(), dim) : interp_linear(s.data(), p.data(), dim);
    c.check(fabsl(got - want) <= 400 * e * 5, cubic ? "cubic" : "linear", [&](auto& o) { o << dim << "-d: got " << got << " want " << want; });
    if (cubic && dim == 1) c.near(interp_cubic(s[0], p.data()), want, 400 * e * 5, "cubic-1d");
    c.cover(cubic ? "cubic" : "linear"); c.cover("dim-" + std::to_string(dim)); u64 h = dim * 2 + cubic; for (auto x : p) h = hcomb(h, hval(x)); for (auto x : s) h = hcomb(h, hval(x)); c.nontrivial(h);
}
TSUITE("interp-double", 200000, 2000000, (interp<double>))
TSUITE("interp-float", 200000, 2000000, (interp<float>))
