#include "vh.h"
#include "ortho.h"
#include <geomc/function/Basis.h>
#include <geomc/function/SphericalHarmonics.h>
using namespace geom; using namespace vh; typedef long double ld;
template <class T> T pick_x(Ctx& c, bool inside) { switch (c.rng.below(8)) { case 0: return (T)c.rng.range(-1, 1); case 1: return (T)(c.rng.coin() ? 1 : -1) * (1 - (T)std::abs(c.rng.logmag(-12, -1))); case 2: return (T)c.rng.logmag(-20, -1); case 3: if (!inside) return (T)c.rng.uniform(-3, 3); default: return (T)c.rng.uniform(-1, 1); } }
template <class T> void poly(Ctx& c) {
    const ld eps = std::numeric_limits<T>::epsilon(); uint64_t h = 0;
    for (int k = 0; k < 12; ++k) {
        int n = c.rng.below(c.rng.chance(.3) ? 33 : 9); T x = pick_x<T>(c, false); h = hcomb(h, hval(x)); ld scale = 0; for (int i = 0; i <= n + 1; ++i) scale = std::max(scale, fabsl((ld)peval(legendre_poly(i), x))); ld tol = 8 * (n + 1) * (n + 1) * eps * std::max(scale, 1.L); auto d = [&](auto& o) { o << "order " << n << " at " << (double)x; };
        ld ref = (ld)peval(legendre_poly(n), x); ld g = legendre<T>((index_t)n, x); c.check(fabsl(g - ref) <= tol, "legendre", d); Poly I = pint(legendre_poly(n)); ld ri = (ld)(peval(I, x) - peval(I, -1)); ld gi = legendre_integral<T>(n, x); c.check(fabsl(gi - ri) <= tol, "legendre-integral", d); if (fabsl(x) > 1) c.cover("outside-unit-interval"); if (fabsl(x) == 1) c.cover("end-point");
        int kind = 1 + c.rng.below(2); ld cs = 0; for (int i = 0; i <= n; ++i) cs = std::max(cs, fabsl((ld)peval(chebyshev_poly(kind, i), x))); ld rc = (ld)peval(chebyshev_poly(kind, n), x); ld gc = chebyshev<T>(kind, n, x); ld amp = 0; for (int i = 0; i <= n; ++i) amp = std::max(amp, fabsl((ld)peval(chebyshev_poly(2, i), x))); c.check(fabsl(gc - rc) <= 8 * (n + 1) * (n + 1) * eps * std::max(amp, 1.L), kind == 1 ? "chebyshev-1" : "chebyshev-2", d); c.cover(kind == 1 ? "chebyshev-1" : "chebyshev-2");
        T y = pick_x<T>(c, true); int l = c.rng.below(std::is_same<T, float>::value ? 12 : 20), m = c.rng.below(l + 1); ld as = 0; for (int i = m; i <= l; ++i) as = std::max(as, fabsl(assoc_legendre(i, m, y))); ld top = 1; for (int i = 1; i <= m; ++i) top *= 2 * i - 1; ld om = std::max(1 - (ld)y * y, 0.L); ld at = 16 * (l + 1) * (l + 1) * eps * as + (om > 0 ? 2 * m * eps / om * as : 0) + (fabsl(y) < 1 ? 0 : 0); ld ga = legendre<T>((index_t)l, (index_t)m, y), ra = assoc_legendre(l, m, y); c.check(fabsl(ga - ra) <= at, "associated", [&](auto& o) { o << "l " << l << " m " << m << " at " << (double)y << ": " << (double)ga << " expected " << (double)ra; }); c.cover(m == 0 ? "associated-0" : m == l ? "sectoral" : "associated"); if (m == 0) c.check(fabsl(ga - legendre<T>((index_t)l, y)) <= at, "m-zero-agrees");
        if (c.rng.chance(.3)) { index_t B = l + 1 + c.rng.below(3); SphericalHarmonics<T, 0> sh(B); for (index_t i = 0; i < sh.size(); ++i) sh.coeffs[i] = (T)77; legendre<T, 0>(&sh, (index_t)m, y); bool ok = true; for (int a = 0; a < B; ++a) for (int b = -a; b <= a; ++b) { if (std::abs(b) != m) ok = ok && sh.coeff(a, b) == (T)77; else { ld s2 = 0; for (int i = m; i <= a; ++i) s2 = std::max(s2, fabsl(assoc_legendre(i, m, y))); ok = ok && fabsl(sh.coeff(a, b) - assoc_legendre(a, m, y)) <= 16 * (a + 1) * (a + 1) * eps * s2 + (om > 0 ? 2 * m * eps / om * s2 : 0); } } c.check(ok, "column", [&](auto& o) { o << "m " << m << " of " << B << " bands at " << (double)y; }); c.cover("column"); }
    }
    c.nontrivial(h);
}
TSUITE("double", 1200, 200000, poly<double>) TSUITE("float", 1200, 200000, poly<float>)
