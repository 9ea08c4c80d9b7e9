#include "lin.h"
using namespace vh;
template <class T> ld eps() { return std::numeric_limits<T>::epsilon(); }

template <class T> DM<T> rand_rect(Ctx& c, index_t r, index_t k) {
    auto a = dm_rand<T>(c, r, k);
    if (c.rng.coin()) for (auto& x : a.v) x *= (T)c.rng.uniform(.5, 1.5);
    if (c.rng.chance(.3)) for (index_t i = 0; i < std::min(r, k); ++i) a(i, i) = 0;
    return a;
}
template <class T> std::vector<T> flat(const DM<T>& a, bool row) { std::vector<T> v(a.v.size()); for (index_t i = 0; i < a.r; ++i) for (index_t j = 0; j < a.c; ++j) v[row ? i * a.c + j : j * a.r + i] = a(i, j); return v; }
template <class T> DM<T> unflat(const std::vector<T>& v, index_t r, index_t k, bool row) { DM<T> a(r, k); for (index_t i = 0; i < r; ++i) for (index_t j = 0; j < k; ++j) a(i, j) = v[row ? i * k + j : j * r + i]; return a; }

// decomposition of any rectangle, rows (PLU) or columns (LUP) pivoted, both layouts
template <class T, bool ROW, bool PLU, int MIN = 1, int MAX = 7>
void decomp(Ctx& c) {
    index_t r = c.rng.range(MIN, MAX), k = c.rng.chance(.4) ? r : c.rng.range(MIN, MAX), n = std::min(r, k), np = PLU ? r : k;
    auto a = rand_rect<T>(c, r, k);
    int zero = c.rng.below(8); // exactly deficient: too many zero rows / columns for full rank
    bool deficient = false;
    if (zero == 0) { index_t z = r - n + 1; for (index_t q = 0; q < z; ++q) for (index_t j = 0; j < k; ++j) a(r - 1 - q, j) = 0; deficient = true; }
    if (zero == 1) { index_t z = k - n + 1; for (index_t q = 0; q < z; ++q) for (index_t i = 0; i < r; ++i) a(i, k - 1 - q) = 0; deficient = true; }
    c.note = str([&](auto& o) { o << a; });
    auto m = flat(a, ROW); std::vector<index_t> p(np, -1); bool parity = c.rng.coin();
    index_t deg = PLU ? decomp_plu<T, ROW>(m.data(), r, k, p.data(), &parity) : decomp_lup<T, ROW>(m.data(), r, k, p.data(), &parity);
    auto lu = unflat(m, r, k, ROW);
    // the reorder map is a permutation, and parity is its sign
    std::vector<int> seen(np, 0); bool ok = true; for (auto x : p) { ok = ok && x >= 0 && x < np; if (ok) ok = ++seen[x] == 1; }
    if (!c.check(ok, "reorder-is-not-a-permutation")) return;
    int inv = 0; for (index_t i = 0; i < np; ++i) for (index_t j = i + 1; j < np; ++j) inv += p[i] > p[j];
    c.check(parity == (inv & 1), "parity", [&](auto& o) { o << parity; });
    // L U = the reordered matrix
    ld big = 0, grow = 0; for (auto x : a.v) big = std::max(big, fabsl((ld)x)); for (auto x : lu.v) grow = std::max(grow, fabsl((ld)x));
    LM L(r, n), U(n, k); for (index_t i = 0; i < r; ++i) for (index_t j = 0; j < n; ++j) L(i, j) = i == j ? 1 : i > j ? lu(i, j) : 0; for (index_t i = 0; i < n; ++i) for (index_t j = i; j < k; ++j) U(i, j) = lu(i, j);
    auto got = dm_mul(L, U); LM want(r, k); for (index_t i = 0; i < r; ++i) for (index_t j = 0; j < k; ++j) want(i, j) = PLU ? a(p[i], j) : a(i, p[j]);
    // (exchanging columns cannot factor a rank-deficient matrix in general: [0 0; 1 1] has no LU = MP with unit L)
    if (PLU || deg == 0) dm_near<ld>(c, got, want, 30 * n * eps<T>() * (big + 1) * (1 + grow), PLU ? "LU=PM" : "LU=MP");
    if (deficient) { c.check(deg > 0, "deficient-matrix-not-reported"); c.cover("deficient"); }
    else if (r == k) { LM iv; if (ld_inverse(lm(a), iv) && norm_inf(lm(a)) * norm_inf(iv) < 1e3) { c.check(deg == 0, "regular-matrix-reported-degenerate"); c.cover("regular"); } }
    c.check(deg >= 0 && deg <= n, "degenerate-count-range");
    { auto m2 = flat(a, ROW); bool p2 = !parity; index_t d2 = PLU ? decomp_plu<T, ROW>(m2.data(), r, k, nullptr, &p2) : decomp_lup<T, ROW>(m2.data(), r, k, nullptr, &p2); c.check(d2 == deg && p2 == parity, "without-reorder-array"); dm_near<T>(c, unflat(m2, r, k, ROW), lm(lu), 1e-3 * (1 + grow), "without-reorder-array"); }
    c.cover(r == k ? "square" : r > k ? "tall" : "wide"); c.nontrivial(hcomb(dm_hash(a), PLU * 2 + ROW));
}
TSUITE("plu-row", 5000, 60000, (decomp<double, true, true>))
TSUITE("plu-col", 5000, 60000, (decomp<double, false, true>))
TSUITE("lup-row", 5000, 60000, (decomp<double, true, false>))
TSUITE("lup-col-float", 5000, 60000, (decomp<float, false, false>))
TSUITE("plu-large", 300, 5000, (decomp<double, true, true, 8, 45>))
TSUITE("lup-large", 300, 5000, (decomp<double, false, false, 8, 45>))

// solving A X = B
template <class T, bool ROW, int MIN = 1, int MAX = 7>
void solve(Ctx& c) {
    index_t n = c.rng.range(MIN, MAX), m = c.rng.range(1, 4);
    bool sing = c.rng.chance(.12);
    auto a = rand_square<T>(c, n, c.rng.coin()), b = dm_rand<T>(c, n, m); if (sing) make_singular(c, a, true);
    LM iv; ld cond = 0; if (!sing) { if (!ld_inverse(lm(a), iv) || (cond = norm_inf(lm(a)) * norm_inf(iv)) > 1e4) { c.cover("ill-conditioned-skipped"); return; } }
    index_t skip = c.rng.chance(.3) ? c.rng.below(n) : 0;
    c.note = str([&](auto& o) { o << a << " X = " << b << " skip " << skip; });
    auto fa = flat(a, ROW), fx = flat(b, ROW);
    bool ok = skip ? linear_solve<T, ROW>(fa.data(), n, m, fx.data(), skip) : linear_solve<T, ROW>(fa.data(), n, m, fx.data());
    if (!c.check(ok == !sing, "solvability")) return;
    if (sing) { c.cover("unsolvable"); c.nontrivial(dm_hash(a)); return; }
    LM x = dm_mul(iv, lm(b)); ld tol = 300 * n * eps<T>() * cond * (norm_inf(x) + norm_inf(iv) * norm_inf(lm(b)));
    auto cmp = [&](const std::vector<T>& v, index_t from, const char* w) { auto g = unflat(v, n, m, ROW); DM<T> s(n - from, m); LM t(n - from, m); for (index_t i = from; i < n; ++i) for (index_t j = 0; j < m; ++j) s(i - from, j) = g(i, j), t(i - from, j) = x(i, j); dm_near<T>(c, s, t, tol, w); };
    cmp(fx, skip, "linear_solve");
    // in two steps, with the right-hand side apart from the solution
    auto lu = flat(a, ROW); std::vector<index_t> p(n); bool par; c.check((decomp_plu<T, ROW>(lu.data(), n, n, p.data(), &par)) == 0, "decomposition");
    auto fb = flat(b, ROW), fb0 = fb; std::vector<T> out(n * m, T(77)); backsolve_plu<T, ROW>(lu.data(), p.data(), n, m, out.data(), fb.data(), skip); cmp(out, skip, "backsolve_plu"); c.check(fb == fb0, "backsolve-changed-right-hand-side");
    DM<T> pb(n, m); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < m; ++j) pb(i, j) = b(p[i], j); auto y = flat(pb, ROW); backsolve_lu<T, ROW>(lu.data(), n, m, y.data(), skip); cmp(y, skip, "backsolve_lu"); if (!skip) { auto y2 = flat(pb, ROW); backsolve_lu<T, ROW>(lu.data(), n, m, y2.data()); c.check(y2 == y, "default-skip"); };
    c.cover("solved"); if (n > 24) c.cover("solved-beyond-inline-buffer"); if (skip) c.cover("skipping"); c.nontrivial(hcomb(dm_hash(a), dm_hash(b)));
}
TSUITE("solve-row", 6000, 80000, (solve<double, true>))
TSUITE("solve-col", 6000, 80000, (solve<double, false>))
TSUITE("solve-float", 4000, 40000, (solve<float, true>))
// beyond the inline buffer of linear_solve (24)
TSUITE("solve-row-large", 400, 6000, (solve<double, true, 8, 45>))
TSUITE("solve-col-large", 400, 6000, (solve<double, false, 8, 45>))

// writing vectors in terms of a basis
template <class T, index_t N>
void bases(Ctx& c) {
    bool sing = c.rng.chance(.12); index_t m = c.rng.range(1, 4);
    bool integer = sing || c.rng.coin();
    auto a = rand_square<T>(c, N, integer); if (sing) make_singular(c, a, N >= 5);
    if (N < 5 && integer && !sing) sing = exact_det(a) == 0;
    LM iv; ld cond = 0; if (!sing) { if (!ld_inverse(lm(a), iv) || (cond = norm_inf(lm(a)) * norm_inf(iv)) > 1e3) { c.cover("ill-conditioned-skipped"); return; } }
    Vec<T, N> bs[N], xs[4], b0[4]; for (index_t i = 0; i < N; ++i) for (index_t j = 0; j < N; ++j) bs[j][i] = a(i, j);
    auto b = dm_rand<T>(c, N, m); for (index_t i = 0; i < N; ++i) for (index_t j = 0; j < m; ++j) xs[j][i] = b(i, j);
    index_t skip = c.rng.chance(.3) ? c.rng.below(N) : 0;
    c.note = str([&](auto& o) { o << "bases are columns of " << a << " targets " << b << " skip " << skip; });
    bool ok = skip ? linear_solve(bs, m, xs, skip) : linear_solve(bs, m, xs);
    if (!c.check(ok == !sing, "independence")) return;
    if (!sing) {
        LM x = dm_mul(iv, lm(b)); ld tol = 300 * N * eps<T>() * (N < 5 ? powl(cond, integer ? 1 : N - 1) : cond) * (norm_inf(x) + norm_inf(iv) * norm_inf(lm(b)));
        DM<T> g(N - skip, m); LM t(N - skip, m); for (index_t i = skip; i < N; ++i) for (index_t j = 0; j < m; ++j) g(i - skip, j) = xs[j][i], t(i - skip, j) = x(i, j);
        dm_near<T>(c, g, t, tol, "coordinates"); c.cover("bases-solved");
    } else c.cover("dependent-bases");
    c.nontrivial(hcomb(dm_hash(a), dm_hash(b)));
}
TSUITE("bases-2", 3000, 30000, (bases<double, 2>))
TSUITE("bases-3", 3000, 30000, (bases<double, 3>))
TSUITE("bases-4", 3000, 30000, (bases<double, 4>))
TSUITE("bases-5", 3000, 30000, (bases<double, 5>))
TSUITE("bases-7", 3000, 30000, (bases<double, 7>))
