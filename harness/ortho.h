// Reference orthogonal polynomials by exact-coefficient expansion in quadruple precision.
#pragma once
#include <vector>
#include <map>
#include <cmath>
namespace vh {
typedef __float128 q128; typedef std::vector<q128> Poly;
inline Poly pmulx(const Poly& p, q128 k) { Poly r(p.size() + 1, 0); for (size_t i = 0; i < p.size(); ++i) r[i + 1] = k * p[i]; return r; }
inline q128 peval(const Poly& p, q128 x) { q128 s = 0; for (size_t i = p.size(); i-- > 0;) s = s * x + p[i]; return s; }
inline Poly pdiff(const Poly& p) { Poly r(std::max<size_t>(p.size(), 2) - 1, 0); for (size_t i = 1; i < p.size(); ++i) r[i - 1] = p[i] * (q128)i; return r; }
inline Poly pint(const Poly& p) { Poly r(p.size() + 1, 0); for (size_t i = 0; i < p.size(); ++i) r[i + 1] = p[i] / (q128)(i + 1); return r; }
// P_n(x) = 2^-n sum_k (-1)^k C(n,k) C(2n-2k,n) x^(n-2k)
inline q128 binom(int n, int k) { q128 r = 1; for (int i = 1; i <= k; ++i) r = r * (q128)(n - k + i) / (q128)i; return r; }
inline const Poly& legendre_poly(int n) { static thread_local std::vector<Poly> memo; while ((int)memo.size() <= n) { int m = (int)memo.size(); Poly p(m + 1, 0); q128 s = 1; for (int i = 0; i < m; ++i) s /= 2; for (int k = 0; 2 * k <= m; ++k) p[m - 2 * k] = s * (k & 1 ? -1 : 1) * binom(m, k) * binom(2 * m - 2 * k, m); memo.push_back(p); } return memo[n]; }
// T_n and U_n from cos((n)t) = Re (x + i s)^n, s^2 = 1 - x^2: sums over even powers of s
inline Poly chebyshev_poly(int kind, int n) { Poly r(n + 1, 0); int N = kind == 1 ? n : n + 1; for (int k = kind == 1 ? 0 : 1; k <= N; k += 2) { int j = k / 2; q128 c = binom(N, k) * (j & 1 ? -1 : 1); for (int i = 0; i <= j; ++i) r[N - k + 2 * i] += c * binom(j, i) * (i & 1 ? -1 : 1); } return r; }
inline long double sqrt_pow(long double s2, int m) { long double r = m & 1 ? sqrtl(s2) : 1; for (int i = 0; i < m / 2; ++i) r *= s2; return r; } // s2^(m/2)
inline const Poly& legendre_diff(int l, int m) { static thread_local std::map<std::pair<int, int>, Poly> memo; auto f = memo.find({l, m}); if (f != memo.end()) return f->second; Poly p = legendre_poly(l); for (int i = 0; i < m; ++i) p = pdiff(p); return memo[{l, m}] = p; }
inline long double assoc_legendre(int l, int m, long double x) { const Poly& p = legendre_diff(l, m); q128 s2 = 1 - (q128)x * x; if (s2 < 0) s2 = 0; return (m & 1 ? -1 : 1) * sqrt_pow((long double)s2, m) * (long double)peval(p, x); }
inline long double real_sh(int l, int m, long double x, long double azi) { int a = std::abs(m); long double z = 1; for (int i = l - a + 1; i <= l + a; ++i) z *= i; long double k = sqrtl((2 * l + 1) / (4 * acosl(-1.L) * z)), P = assoc_legendre(l, a, x); return m == 0 ? k * P : sqrtl(2.L) * k * P * (m > 0 ? cosl(a * azi) : sinl(a * azi)); }
// Gauss-Legendre nodes and weights
inline void gauss_legendre(int n, std::vector<long double>& x, std::vector<long double>& w) { const Poly& p = legendre_poly(n); Poly d = pdiff(p); for (int i = 0; i < n; ++i) { q128 t = cosl(acosl(-1.L) * (i + .75L) / (n + .5L)); for (int k = 0; k < 60; ++k) t -= peval(p, t) / peval(d, t); q128 g = peval(d, t); x.push_back((long double)t); w.push_back((long double)(2 / ((1 - t * t) * g * g))); } }
}
