// Sizes beyond the inline buffers of the implementation (8 to 48): inverse, determinant and refusal.
#include "inv.inc"

// determinant by long-double elimination with partial pivoting
inline ld ld_det(LM a) {
    index_t n = a.r; ld d = 1;
    for (index_t k = 0; k < n; ++k) {
        index_t p = k; for (index_t i = k; i < n; ++i) if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i;
        if (a(p, k) == 0) return 0;
        if (p != k) { d = -d; for (index_t j = 0; j < n; ++j) std::swap(a(k, j), a(p, j)); }
        d *= a(k, k);
        for (index_t i = k + 1; i < n; ++i) { ld f = a(i, k) / a(k, k); if (f != 0) for (index_t j = k; j < n; ++j) a(i, j) -= f * a(k, j); }
    }
    return d;
}
// a diagonally dominant matrix of size n with its rows shuffled: regular, well conditioned, zero pivots everywhere
template <class T> DM<T> rand_large(Ctx& c, index_t n) {
    DM<T> a(n, n); double dens = c.rng.chance(.3) ? .15 : 1;
    for (index_t i = 0; i < n; ++i) { double s = 0; for (index_t j = 0; j < n; ++j) if (i != j && c.rng.chance(dens)) { a(i, j) = (T)c.rng.uniform(-1, 1) / n; s += std::fabs(a(i, j)); } a(i, i) = (T)((c.rng.coin() ? 1 : -1) * (s + c.rng.uniform(.6, 1.2))); }
    if (c.rng.coin()) for (index_t i = n - 1; i > 0; --i) { index_t k = c.rng.below(i + 1); for (index_t j = 0; j < n; ++j) std::swap(a(i, j), a(k, j)); }
    if (c.rng.coin()) for (index_t i = n - 1; i > 0; --i) { index_t k = c.rng.below(i + 1); for (index_t j = 0; j < n; ++j) std::swap(a(j, i), a(j, k)); }
    return a;
}
template <class T, MatrixLayout LA, MatrixLayout LD>
void large(Ctx& c) {
    index_t n = c.rng.chance(.3) ? c.rng.range(23, 27) : c.rng.range(7, 48);
    auto a = rand_large<T>(c, n); bool reg = !c.rng.chance(.15);
    if (!reg) make_singular(c, a, true);
    c.note = str([&](auto& o) { o << (LA == ROW_MAJOR ? "row" : "col") << "->" << (LD == ROW_MAJOR ? "row " : "col ") << a; });
    SimpleMatrix<T, 0, 0, LA> A(n, n); dm_write(A, a); SimpleMatrix<T, 0, 0, LD> D(n, n); auto junk = dm_rand<T>(c, n, n); dm_write(D, junk);
    LM want; ld cond = 0; if (reg) { if (!ld_inverse(lm(a), want)) { c.cover("reference-gave-up"); return; } cond = norm_inf(lm(a)) * norm_inf(want); }
    if (cond > 1e4) { c.cover("ill-conditioned-skipped"); return; }
    ld tol = 100 * n * eps<T>() * cond * (reg ? norm_inf(want) : 0);
    bool ok = inv(&D, A); c.check(ok == reg, "singularity-large"); dm_same(c, A, a, "source-changed"); if (!ok) dm_same(c, D, junk, "failed-inverse-wrote-destination"); if (reg && ok) dm_near<T>(c, D, want, tol, "inverse-large");
    bool ok2 = !reg; auto R = inv(A, &ok2); c.check(ok2 == reg, "singularity-returned-large"); if (reg && ok2) dm_near<T>(c, R, want, tol, "inverse-returned-large");
    { auto X = A; bool k = inv(&X, X); c.check(k == reg, "singularity-in-place-large"); if (k && reg) dm_near<T>(c, X, want, tol, "inverse-in-place-large"); else if (!k) dm_same(c, X, a, "failed-in-place-inverse-changed-matrix"); }
    { auto X = A; auto V = X.as_transpose(); bool k = inv(&V, X); c.check(k == reg, "singularity-into-transposed-view-large"); if (k && reg) dm_near<T>(c, V, want, tol, "inverse-into-transposed-view-large"); }
    // relative accuracy of the determinant follows from the condition number
    ld w = ld_det(lm(a)), dt = fabsl(w) * 100 * n * n * eps<T>() * (1 + cond) + std::numeric_limits<T>::min(); if (!reg) dt = 1e-30L + 100 * n * n * eps<T>();
    auto chk = [&](ld g, const char* s) { c.check(fabsl(g - w) <= dt, s, [&](auto& o) { o << (double)g << " want " << (double)w << " tolerance " << (double)dt; }); };
    chk(det(A), "det-large"); chk(detNxN(A.data_begin(), n), "detNxN-large"); dm_same(c, A, a, "det-changed-matrix"); { std::vector<T> b(A.data_begin(), A.data_end()); chk(det_destructive(b.data(), n), "det_destructive-large"); }
    c.cover(reg ? "large-regular" : "large-singular"); if (n > 24) c.cover("beyond-inline-buffers"); c.nontrivial(dm_hash(a));
}
TSUITE("large-double-row", 700, 8000, (large<double, ROW_MAJOR, ROW_MAJOR>))
TSUITE("large-double-mixed", 700, 8000, (large<double, COL_MAJOR, ROW_MAJOR>))
TSUITE("large-double-mixed2", 500, 6000, (large<double, ROW_MAJOR, COL_MAJOR>))
TSUITE("large-float-col", 500, 6000, (large<float, COL_MAJOR, COL_MAJOR>))
