#include "inv.inc"
template <class T, index_t N, MatrixLayout L>
void det_static(Ctx& c) {
    auto a = rand_square<T>(c, N, true); if (c.rng.chance(.15)) make_singular(c, a);
    c.note = str([&](auto& o) { o << a; });
    SimpleMatrix<T, N, N, L> A; dm_write(A, a); SimpleMatrix<T, 0, 0, L> D(N, N); dm_write(D, a);
    ld want = exact_det(a), tol = N <= 4 ? 0 : 100 * N * eps<T>() * row_norm_product(a);
    auto chk = [&](ld g, ld t, const char* w) { c.check(fabsl(g - want) <= t, w, [&](auto& o) { o << (double)g << " want " << (double)want << " tolerance " << (double)t; }); };
    ld dyn_tol = 100 * N * eps<T>() * row_norm_product(a);
    chk(det(A), tol, "det"); dm_same(c, A, a, "det-changed-matrix");
    if constexpr (!std::is_integral<T>::value) {
        chk(det(D), dyn_tol, "det-dynamic"); chk(detNxN(A.data_begin(), N), dyn_tol, "detNxN"); dm_same(c, A, a, "detNxN-changed-matrix");
        std::vector<T> b(A.data_begin(), A.data_end()); chk(det_destructive(b.data(), N), dyn_tol, "det_destructive");
    }
    // raw-array forms
    const T* p = A.data_begin();
    if constexpr (N == 2) { chk(det2x2(p), 0, "det2x2"); chk(det2x2(a(0, 0), a(0, 1), a(1, 0), a(1, 1)), 0, "det2x2-elements"); }
    if constexpr (N == 3) { chk(det3x3(p), 0, "det3x3"); chk(det3x3(a(0, 0), a(0, 1), a(0, 2), a(1, 0), a(1, 1), a(1, 2), a(2, 0), a(2, 1), a(2, 2)), 0, "det3x3-elements"); }
    if constexpr (N == 4) chk(det4x4(p), 0, "det4x4");
    c.cover(want == 0 ? "zero-determinants" : "nonzero-determinants");
    c.nontrivial(dm_hash(a));
}
TSUITE("det-double-1", 500, 5000, (det_static<double, 1, ROW_MAJOR>))
TSUITE("det-double-2", 4000, 40000, (det_static<double, 2, ROW_MAJOR>))
TSUITE("det-double-3", 5000, 60000, (det_static<double, 3, COL_MAJOR>))
TSUITE("det-float-4", 5000, 60000, (det_static<float, 4, ROW_MAJOR>))
TSUITE("det-double-5", 5000, 60000, (det_static<double, 5, COL_MAJOR>))
TSUITE("det-double-9", 3000, 30000, (det_static<double, 9, ROW_MAJOR>))
SUITE("det-nonsquare", 1500, 15000) {
    index_t r = c.rng.range(1, 6), k = c.rng.range(1, 6); auto a = dm_rand<double>(c, r, k); SimpleMatrix<double, 0, 0> A(r, k); dm_write(A, a);
    c.note = str([&](auto& o) { o << a; });
    if (r != k) { c.check(det(A) == 0, "det-of-nonsquare"); bool t = false, ok = true; SimpleMatrix<double, 0, 0> D(r, k); auto d = dm_read<double>(D);
        try { inv(&D, A); } catch (const NonsquareMatrixException&) { t = true; } c.check(t, "inv-of-nonsquare"); dm_same(c, D, d, "refused-inverse-wrote"); t = false; try { auto x = inv(A, &ok); } catch (const NonsquareMatrixException&) { t = true; } c.check(t, "inv-of-nonsquare-returned"); c.cover("nonsquare"); }
    else { SimpleMatrix<double, 0, 0> D(r + 1, r + 1); bool t = false; auto d = dm_read<double>(D); try { inv(&D, A); } catch (const DimensionMismatchException&) { t = true; } c.check(t, "inv-into-wrong-size"); dm_same(c, D, d, "refused-inverse-wrote"); }
    DiagMatrix<double, 0, 0> G(r, k); double w = 1; for (index_t i = 0; i < std::min(r, k); ++i) { G.diagonal(i) = c.rng.range(-4, 4); w *= G.diagonal(i); }
    c.check(det(G) == (r == k ? w : 0), "det-of-diagonal");
    if (r == k) {
        auto g = dm_read<double>(G); bool ok = false; auto J = inv(G, &ok); c.check(ok == (w != 0), "diag-singularity"); DM<double> want = g; for (index_t i = 0; i < r && w != 0; ++i) want(i, i) = 1 / g(i, i);
        if (ok) dm_near<double>(c, J, lm(want), 1e-14, "diag-inverse");
        SimpleMatrix<double, 0, 0> D(r, r); c.check(inv(&D, G) == (w != 0), "diag-singularity-dense"); if (w != 0) dm_near<double>(c, D, lm(want), 1e-14, "diag-inverse-dense");
        auto H = G; c.check(inv(&H, H) == (w != 0), "diag-singularity-in-place"); if (w != 0) dm_near<double>(c, H, lm(want), 1e-14, "diag-inverse-in-place"); else dm_same(c, H, g, "failed-diag-inverse-wrote");
        c.cover(w == 0 ? "singular-diagonals" : "regular-diagonals");
    }
    c.nontrivial(hcomb(dm_hash(a), hval(w)));
}
