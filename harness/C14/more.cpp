#include "elem.inc"
template <class F> bool throws_dim(F&& f) { try { f(); } catch (const DimensionMismatchException&) { return true; } return false; }

// ---- transposing into memory shared with the source
template <MatrixLayout LA, MatrixLayout LD>
void txp_overlap(Ctx& c) {
    bool big = c.rng.chance(.06); int top = big ? 18 : 5, off = big ? 150 : 15; if (big) c.cover("large-overlaps");
    index_t M = c.rng.range(1, top), N = c.rng.chance(.4) ? M : c.rng.range(1, top), cap = big ? 480 : 40;
    std::unique_ptr<double[]> buf(new double[cap]);
    for (index_t i = 0; i < cap; ++i) buf[i] = c.rng.range(-9, 9);
    index_t oa = c.rng.range(0, off), od = c.rng.coin() ? oa : c.rng.range(0, off);
    auto A = wrap<double, LA>(buf.get() + oa, M, N); auto D = wrap<double, LD>(buf.get() + od, N, M);
    auto a = dm_read<double>(A);
    c.note = str([&](auto& o) { o << a << " at " << oa << " -> " << od; });
    std::vector<double> before(buf.get(), buf.get() + cap);
    transpose(&D, A);
    dm_same(c, D, dm_txp(a), "transpose-into-overlapping-dest");
    for (index_t i = 0; i < cap; ++i) if ((i < od || i >= od + M * N) && !c.check(buf[i] == before[i], "wrote-outside-dest")) break;
    if (oa < od + M * N && od < oa + M * N) c.cover("overlapping-transpose");
    c.nontrivial(hcomb(dm_hash(a), oa * 100 + od));
}
TSUITE("transpose-overlap-row-row", 4000, 50000, txp_overlap<ROW_MAJOR, ROW_MAJOR>)
TSUITE("transpose-overlap-row-col", 4000, 50000, txp_overlap<ROW_MAJOR, COL_MAJOR>)
TSUITE("transpose-overlap-col-col", 4000, 50000, txp_overlap<COL_MAJOR, COL_MAJOR>)
SUITE("transpose-in-place", 4000, 50000) {
    index_t n = c.rng.range(1, c.rng.chance(.05) ? 30 : 6);
    auto a = dm_rand<double>(c, n, n), b = dm_rand<double>(c, 3, 3);
    c.note = str([&](auto& o) { o << a; });
    SimpleMatrix<double, 0, 0> A(n, n); dm_write(A, a); transpose(&A, A); dm_same(c, A, dm_txp(a), "dynamic"); transpose(&A, A); dm_same(c, A, a, "twice");
    SimpleMatrix<double, 3, 3, COL_MAJOR> B; dm_write(B, b); transpose(&B, B); dm_same(c, B, dm_txp(b), "static");
    SimpleMatrix<double, 0, 0, ROW_MAJOR, STORAGE_SHARED> S(n, n); dm_write(S, a); auto S2 = S; transpose(&S2, S); dm_same(c, S, dm_txp(a), "shared"); dm_same(c, S2, dm_txp(a), "shared");
    c.cover("in-place");
    c.nontrivial(dm_hash(a));
}

// ---- diagonal matrices and permutations as operands
template <class T, index_t M, index_t N, bool DYN>
void diag_elem(Ctx& c) {
    const index_t L = std::min(M, N);
    DM<T> a(M, N), b(M, N), d = dm_rand<T>(c, M, N), junk = dm_rand<T>(c, M, N);
    for (index_t i = 0; i < L; ++i) a(i, i) = T(c.rng.range(-9, 9)), b(i, i) = T(c.rng.range(-9, 9));
    if (c.rng.chance(.3)) b = a;
    T k = T(c.rng.range(-5, 5));
    typedef DiagMatrix<T, DYN ? 0 : M, DYN ? 0 : N> G;
    auto mk = [&](const DM<T>& x) { auto f = [&](auto& g) { for (index_t i = 0; i < L; ++i) g.diagonal(i) = x(i, i); }; if constexpr (DYN) { G g(M, N); f(g); return g; } else { G g; f(g); return g; } };
    c.note = str([&](auto& o) { o << "diag " << a << ", " << b << "; dense " << d; });
    G A = mk(a), B = mk(b), D2 = mk(b); SimpleMatrix<T, M, N, COL_MAJOR> X; dm_write(X, d); SimpleMatrix<T, M, N> Y; dm_write(Y, junk);
    { auto I = mk(a); I.set_identity(); dm_same(c, I, dm_eye<T>(M, N), "diag-identity"); I.set_zero(); dm_same(c, I, DM<T>(M, N), "diag-zero"); }
    dm_same(c, A + B, dm_lin<T>(a, 1, b, 1), "diag+diag"); dm_same(c, A - B, dm_lin<T>(a, 1, b, -1), "diag-diag");
    dm_same(c, A + X, dm_lin<T>(a, 1, d, 1), "diag+dense"); dm_same(c, X - A, dm_lin<T>(d, 1, a, -1), "dense-diag");
    add(&Y, A, B); dm_same(c, Y, dm_lin<T>(a, 1, b, 1), "dense<-diag+diag"); dm_write(Y, junk); sub(&Y, A, B); dm_same(c, Y, dm_lin<T>(a, 1, b, -1), "dense<-diag-diag");
    dm_write(Y, junk); add(&Y, A, X); dm_same(c, Y, dm_lin<T>(a, 1, d, 1), "dense<-diag+dense");
    add(&D2, A, B); dm_same(c, D2, dm_lin<T>(a, 1, b, 1), "diag<-diag+diag"); sub(&D2, D2, B); dm_same(c, D2, a, "diag<-diag-diag in place");
    dm_same(c, k * A, dm_lin<T>(a, k, a, 0), "k*diag"); dm_same(c, A * k, dm_lin<T>(a, k, a, 0), "diag*k"); scale(&D2, k, A); dm_same(c, D2, dm_lin<T>(a, k, a, 0), "diag<-k*diag"); dm_write(Y, junk); scale(&Y, k, A); dm_same(c, Y, dm_lin<T>(a, k, a, 0), "dense<-k*diag");
    dm_same(c, transpose(A), dm_txp(a), "transpose(diag)");
    dm_write(Y, junk); mtxcopy(&Y, A); dm_same(c, Y, a, "dense<-diag copy"); mtxcopy(&D2, B); dm_same(c, D2, b, "diag<-diag copy");
    SimpleMatrix<T, M, N> C(A); dm_same(c, C, a, "dense(diag)");
    c.check((A == B) == (a.v == b.v) && (A != B) == (a.v != b.v), "diag==diag"); c.check(C == A && A == C, "dense==diag");
    X(0, N - 1) += (a(0, N - 1) == X(0, N - 1)) ? T(1) : T(0); c.check(!(X == A) && A != X, "dense!=diag");
    // through a handle
    MatrixWrapper<SimpleMatrix<T, M, N>> h(&C); MatrixHandle<T>& H = h; dm_same(c, H, a, "handle read"); c.check(H == A && H == C, "handle=="); H.set(M - 1, 0, T(7)); c.check(C(M - 1, 0) == T(7), "handle write"); H.set_identity(); dm_same(c, C, dm_eye<T>(M, N), "handle set_identity"); H.set_zero(); dm_same(c, C, DM<T>(M, N), "handle set_zero");
    dm_same(c, A, a, "operand-changed"); dm_same(c, B, b, "operand-changed");
    c.cover(M == N ? "diag-square" : "diag-nonsquare");
    c.nontrivial(hcomb(hcomb(dm_hash(a), dm_hash(b)), hcomb(dm_hash(d), (u64)(k + 5))));
}
TSUITE("diag-3x3", 3000, 40000, diag_elem<double, 3, 3, false>)
TSUITE("diag-2x4", 3000, 40000, diag_elem<double, 2, 4, false>)
TSUITE("diag-dyn-4x2", 3000, 40000, diag_elem<int, 4, 2, true>)

// ---- vectors and matrices copy into each other
SUITE("vector-copies", 4000, 50000) {
    auto v0 = dm_rand<double>(c, 4, 1), w0 = dm_rand<double>(c, 4, 1);
    Vec<double, 4> v(v0.v.data()), w(w0.v.data());
    SimpleMatrix<double, 4, 1> C; SimpleMatrix<double, 1, 4> R; SimpleMatrix<double, 0, 0> D(4, 1), E(1, 4), F(2, 4);
    mtxcopy(&C, v); dm_same(c, C, v0, "column<-vec"); mtxcopy(&R, v); dm_same(c, R, dm_txp(v0), "row<-vec");
    mtxcopy(&D, v); dm_same(c, D, v0, "dynamic column<-vec"); mtxcopy(&E, v); dm_same(c, E, dm_txp(v0), "dynamic row<-vec");
    auto f = dm_read<double>(F); c.check(throws_dim([&] { mtxcopy(&F, v); }), "vec-into-2x4-accepted"); dm_same(c, F, f, "refused copy wrote");
    mtxcopy(&w, C); vec_same(c, w, v0, "vec<-column"); w = Vec<double, 4>(w0.v.data()); mtxcopy(&w, E); vec_same(c, w, v0, "vec<-dynamic row");
    c.check(throws_dim([&] { mtxcopy(&w, F); }), "2x4-into-vec-accepted"); vec_same(c, w, v0, "refused copy wrote");
    c.nontrivial(hcomb(dm_hash(v0), dm_hash(w0)));
}

// ---- runtime sizes that disagree
SUITE("size-mismatch", 5000, 50000) {
    index_t ar = c.rng.range(1, 3), ac = c.rng.range(1, 3), br = c.rng.coin() ? ar : c.rng.range(1, 3), bc = c.rng.coin() ? ac : c.rng.range(1, 3), dr = c.rng.coin() ? ar : c.rng.range(1, 3), dc = c.rng.coin() ? ac : c.rng.range(1, 3);
    c.note = str([&](auto& o) { o << ar << "x" << ac << ", " << br << "x" << bc << " -> " << dr << "x" << dc; });
    auto a = dm_rand<double>(c, ar, ac), b = dm_rand<double>(c, br, bc), d = dm_rand<double>(c, dr, dc);
    SimpleMatrix<double, 0, 0> A(ar, ac), B(br, bc), D(dr, dc); dm_write(A, a); dm_write(B, b); dm_write(D, d);
    bool ab = ar != br || ac != bc, ad = ar != dr || ac != dc;
    c.check(throws_dim([&] { auto x = A + B; }) == ab, "a+b"); c.check(throws_dim([&] { auto x = A - B; }) == ab, "a-b");
    auto keep = [&](bool bad, const char* w) { if (bad) dm_same(c, D, d, w); dm_write(D, d); };
    c.check(throws_dim([&] { add(&D, A, B); }) == (ab || ad), "add"); keep(ab || ad, "refused add wrote"); c.check(throws_dim([&] { sub(&D, A, B); }) == (ab || ad), "sub"); keep(ab || ad, "refused sub wrote");
    c.check(throws_dim([&] { scale(&D, 3., A); }) == ad, "scale"); keep(ad, "refused scale wrote");
    c.check(throws_dim([&] { mtxcopy(&D, A); }) == ad, "mtxcopy"); keep(ad, "refused copy wrote");
    bool td = ar != dc || ac != dr; c.check(throws_dim([&] { transpose(&D, A); }) == td, "transpose"); keep(td, "refused transpose wrote");
    { SimpleMatrix<double, 2, 2> S; S.set_zero(); bool s = ar != 2 || ac != 2; c.check(throws_dim([&] { mtxcopy(&S, A); }) == s, "static<-dynamic copy"); c.check(throws_dim([&] { auto x = S + A; }) == s, "static+dynamic"); c.check((S == A) == (!s && std::all_of(a.v.begin(), a.v.end(), [](double x) { return x == 0; })) || !s, "static==dynamic size"); transpose(&S, S); }
    c.check((A == B) == (!ab && a.v == b.v), "=="); c.check((A != B) == (ab || a.v != b.v), "!=");
    c.cover(ab || ad ? "refused" : "accepted");
    c.nontrivial(hcomb(hcomb(dm_hash(a), dm_hash(b)), dr * 10 + dc));
}
