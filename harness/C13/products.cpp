#include "mtx.h"
using namespace vh;

// ---- random runtime sizes
SUITE("mul-dynamic", 6000, 60000) {
    int top = c.rng.chance(.05) ? 48 : 9; if (top > 9) c.cover("large-sizes"); index_t M = c.rng.range(1, top), L = c.rng.range(1, top), N = c.rng.range(1, top);
    auto a = dm_rand<double>(c, M, L), b = dm_rand<double>(c, L, N);
    c.note = str([&](auto& o) { o << a << " * " << b; });
    SimpleMatrix<double, 0, 0> A(M, L), D(M, N); SimpleMatrix<double, 0, 0, COL_MAJOR> B(L, N), E(M, N);
    dm_write(A, a); dm_write(B, b);
    auto want = dm_mul(a, b);
    dm_same(c, A * B, want, "operator*");
    mul(&D, A, B); dm_same(c, D, want, "mul-into");
    mul(&E, A, B); dm_same(c, E, want, "mul-into-col");
    c.nontrivial(hcomb(dm_hash(a), dm_hash(b)));
}

// ---- destination overlapping the operands, wholly or partly
template <MatrixLayout LA, MatrixLayout LB, MatrixLayout LD>
void overlap(Ctx& c) {
    bool big = c.rng.chance(.06); int top = big ? 14 : 4; if (big) c.cover("large-overlaps");
    index_t M = c.rng.range(1, top), L = c.rng.range(1, top), N = c.rng.range(1, top);
    if (c.rng.chance(.4)) N = L = M;
    index_t cap = big ? 420 : 40;
    std::unique_ptr<double[]> buf(new double[cap]);
    for (index_t i = 0; i < cap; ++i) buf[i] = c.rng.range(-9, 9);
    auto at = [&](index_t n) { return c.rng.chance(.35) ? 0 : c.rng.range(0, std::min<index_t>(cap - n, big ? 210 : 20)); };
    index_t oa = at(M * L), ob = at(L * N), od = at(M * N);
    auto A = wrap<double, LA>(buf.get() + oa, M, L); auto B = wrap<double, LB>(buf.get() + ob, L, N); auto D = wrap<double, LD>(buf.get() + od, M, N);
    auto a = dm_read<double>(A), b = dm_read<double>(B);
    auto want = dm_mul(a, b);
    bool ova = od < oa + M * L && oa < od + M * N, ovb = od < ob + L * N && ob < od + M * N;
    c.note = str([&](auto& o) { o << "A " << a << " at " << oa << ", B " << b << " at " << ob << ", dest at " << od; });
    c.check(mtx_aliases_storage(D, A) == ova && mtx_aliases_storage(A, D) == ova, "mtx_aliases_storage", [&](auto& o) { o << "expected " << ova; });
    c.check(mtx_aliases_storage(D, B) == ovb && mtx_aliases_storage(B, D) == ovb, "mtx_aliases_storage", [&](auto& o) { o << "expected " << ovb; });
    std::vector<double> before(buf.get(), buf.get() + cap);
    mul(&D, A, B);
    dm_same(c, D, want, "product-into-overlapping-dest");
    for (index_t i = 0; i < cap; ++i) if ((i < od || i >= od + M * N) && !c.check(buf[i] == before[i], "wrote-outside-dest")) break;
    if (ova || ovb) c.cover(oa == od || ob == od ? "exact-overlap" : "partial-overlap");
    c.nontrivial(hcomb(hcomb(dm_hash(a), dm_hash(b)), oa * 10000 + ob * 100 + od));
}
TSUITE("overlap-row-row-row", 3000, 40000, overlap<ROW_MAJOR, ROW_MAJOR, ROW_MAJOR>)
TSUITE("overlap-row-col-row", 3000, 40000, overlap<ROW_MAJOR, COL_MAJOR, ROW_MAJOR>)
TSUITE("overlap-col-row-row", 3000, 40000, overlap<COL_MAJOR, ROW_MAJOR, ROW_MAJOR>)
TSUITE("overlap-col-col-col", 3000, 40000, overlap<COL_MAJOR, COL_MAJOR, COL_MAJOR>)
SUITE("in-place", 3000, 30000) {
    auto a = dm_rand<double>(c, 3, 3), b = dm_rand<double>(c, 3, 3);
    c.note = str([&](auto& o) { o << a << " * " << b; });
    { SimpleMatrix<double, 3, 3> A, B; dm_write(A, a); dm_write(B, b); mul(&A, A, B); dm_same(c, A, dm_mul(a, b), "A=A*B"); }
    { SimpleMatrix<double, 3, 3> A, B; dm_write(A, a); dm_write(B, b); mul(&B, A, B); dm_same(c, B, dm_mul(a, b), "B=A*B"); }
    { SimpleMatrix<double, 3, 3, COL_MAJOR> A; dm_write(A, a); mul(&A, A, A); dm_same(c, A, dm_mul(a, a), "A=A*A"); }
    { SimpleMatrix<double, 0, 0> A(3, 3); dm_write(A, a); SimpleMatrix<double, 3, 3> B; dm_write(B, b); mul(&A, A, B); dm_same(c, A, dm_mul(a, b), "dynamic A=A*B"); }
    { SimpleMatrix<double, 0, 0, ROW_MAJOR, STORAGE_SHARED> A(3, 3); dm_write(A, a); auto S = A; SimpleMatrix<double, 3, 3> B; dm_write(B, b); mul(&S, A, B); dm_same(c, S, dm_mul(a, b), "shared alias"); dm_same(c, A, dm_mul(a, b), "shared alias"); }
    { SimpleMatrix<double, 3, 3> A, B; dm_write(A, a); dm_write(B, b); auto T = A.as_transpose(); mul(&A, T, B); dm_same(c, A, dm_mul(dm_txp(a), b), "A=A^T*B"); }
    { Vec<double, 3> v; for (int i = 0; i < 3; ++i) v[i] = b(i, 0); SimpleMatrix<double, 3, 3> A; dm_write(A, a); Vec<double, 3> w = v; mul(&w, A, w); vec_same(c, w, dm_mul(a, dm_col(v)), "v=A*v"); w = v; mul(&w, w, A); vec_same(c, w, dm_mul(dm_row(v), a), "v=v*A"); }
    { std::vector<Vec<double, 3>> vs(3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vs[i][j] = a(i, j); // rows of A live in an array of vectors
      int k = c.rng.below(3); auto W = wrap<double, ROW_MAJOR>(vs[0].begin(), 3, 3); Vec<double, 3> v; for (int i = 0; i < 3; ++i) v[i] = b(i, 0);
      mul(&vs[k], W, v); vec_same(c, vs[k], dm_mul(a, dm_col(v)), "dest vector inside matrix storage"); }
    c.cover("in-place");
    c.nontrivial(hcomb(dm_hash(a), dm_hash(b)));
}

