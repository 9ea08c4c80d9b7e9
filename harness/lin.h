// Long-double reference linear algebra for the inverse / decomposition monitors.
#pragma once
#include "mtx.h"
#include <geomc/linalg/LUDecomp.h>

namespace vh {
typedef long double ld;
typedef DM<ld> LM;
template <class T> LM lm(const DM<T>& a) { LM d(a.r, a.c); for (size_t i = 0; i < a.v.size(); ++i) d.v[i] = a.v[i]; return d; }
inline ld norm_inf(const LM& a) { ld m = 0; for (index_t i = 0; i < a.r; ++i) { ld s = 0; for (index_t j = 0; j < a.c; ++j) s += fabsl(a(i, j)); m = std::max(m, s); } return m; }
// Gauss-Jordan with full pivoting; returns false if a pivot is negligible
inline bool ld_inverse(LM a, LM& out) {
    index_t n = a.r; std::vector<index_t> pc(n); LM b(n, n); for (index_t i = 0; i < n; ++i) b(i, i) = 1, pc[i] = i;
    ld scale = norm_inf(a); if (scale == 0) return false;
    for (index_t k = 0; k < n; ++k) {
        index_t pi = k, pj = k; for (index_t i = k; i < n; ++i) for (index_t j = k; j < n; ++j) if (fabsl(a(i, j)) > fabsl(a(pi, pj))) pi = i, pj = j;
        if (fabsl(a(pi, pj)) < 1e-15L * scale) return false;
        for (index_t j = 0; j < n; ++j) std::swap(a(k, j), a(pi, j)), std::swap(b(k, j), b(pi, j));
        for (index_t i = 0; i < n; ++i) std::swap(a(i, k), a(i, pj)); std::swap(pc[k], pc[pj]);
        ld p = a(k, k); for (index_t j = 0; j < n; ++j) a(k, j) /= p, b(k, j) /= p;
        for (index_t i = 0; i < n; ++i) if (i != k) { ld f = a(i, k); if (f != 0) for (index_t j = 0; j < n; ++j) a(i, j) -= f * a(k, j), b(i, j) -= f * b(k, j); }
    }
    out = LM(n, n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) out(pc[i], j) = b(i, j);
    return true;
}
// exact determinant of an integer matrix (Bareiss)
template <class T> __int128 exact_det(const DM<T>& m) {
    index_t n = m.r; std::vector<__int128> a(n * n); for (index_t i = 0; i < n * n; ++i) a[i] = (long long)m.v[i];
    __int128 prev = 1; int sg = 1;
    for (index_t k = 0; k + 1 < n; ++k) {
        if (a[k * n + k] == 0) { index_t p = k + 1; while (p < n && a[p * n + k] == 0) ++p; if (p == n) return 0; for (index_t j = 0; j < n; ++j) std::swap(a[k * n + j], a[p * n + j]); sg = -sg; }
        for (index_t i = k + 1; i < n; ++i) for (index_t j = k + 1; j < n; ++j) a[i * n + j] = (a[i * n + j] * a[k * n + k] - a[i * n + k] * a[k * n + j]) / prev;
        prev = a[k * n + k];
    }
    return sg * a[n * n - 1];
}
template <class T> ld row_norm_product(const DM<T>& m) { ld p = 1; for (index_t i = 0; i < m.r; ++i) { ld s = 0; for (index_t j = 0; j < m.c; ++j) s += fabsl((ld)m(i, j)); p *= s; } return p; }

// a zero row or column, or (unless zero_only) a repeated row
template <class T> void make_singular(Ctx& c, DM<T>& a, bool zero_only = false) {
    index_t n = a.r, i = c.rng.below(n), j = c.rng.below(n);
    int k = n == 1 ? 0 : c.rng.below(zero_only ? 2 : 3);
    if (k == 0) for (index_t q = 0; q < n; ++q) a(i, q) = 0;
    else if (k == 1) for (index_t q = 0; q < n; ++q) a(q, i) = 0;
    else { while (j == i) j = c.rng.below(n); for (index_t q = 0; q < n; ++q) a(i, q) = a(j, q); }
}
// structured random square matrices: dense integers, permuted triangular, sparse, real
template <class T> DM<T> rand_square(Ctx& c, index_t n, bool integer) {
    auto a = dm_rand<T>(c, n, n);
    switch (c.rng.below(5)) {
        case 0: for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < i; ++j) a(i, j) = 0; for (index_t i = n - 1; i > 0; --i) { index_t k = c.rng.below(i + 1); for (index_t j = 0; j < n; ++j) std::swap(a(i, j), a(k, j)); } break;
        case 1: for (auto& x : a.v) if (c.rng.chance(.6)) x = 0; break;
        case 2: for (index_t i = 0; i < n; ++i) a(i, i) = 0; break;
        default: break;
    }
    if (!integer) for (auto& x : a.v) x *= (T)c.rng.uniform(0.5, 1.5);
    return a;
}
template <class T, class M> bool dm_near(Ctx& c, const M& m, const LM& want, ld tol, const char* what) {
    bool ok = m.rows() == want.r && m.cols() == want.c; ld worst = 0;
    for (index_t i = 0; ok && i < want.r; ++i) for (index_t j = 0; ok && j < want.c; ++j) { ld e = fabsl((ld)m(i, j) - want(i, j)); if (!(e <= tol)) ok = false; worst = std::max(worst, e); }
    return c.check(ok, what, [&](auto& o) { DM<T> g(m.rows(), m.cols()); for (index_t i = 0; i < g.r; ++i) for (index_t j = 0; j < g.c; ++j) g(i, j) = m(i, j); DM<double> w(want.r, want.c); for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = want.v[i]; o << "got " << g << " want " << w << " tolerance " << (double)tol; });
}
} // namespace vh
