#include "mtx.h"
using namespace vh;

// ---- diagonal matrices
template <class T, index_t M, index_t N> DiagMatrix<T, M, N> mkdiag(const DM<T>& d) {
    auto fill = [&](auto& g) { for (index_t i = 0; i < std::min(d.r, d.c); ++i) g.diagonal(i) = d(i, i); };
    if constexpr (M * N == 0) { DiagMatrix<T, M, N> g(d.r, d.c); fill(g); return g; } else { DiagMatrix<T, M, N> g; fill(g); return g; }
}
template <class T> DM<T> rdiag(Ctx& c, index_t r, index_t k) { DM<T> d(r, k); for (index_t i = 0; i < std::min(r, k); ++i) d(i, i) = T(c.rng.range(-9, 9)); return d; }

// diagonal M x L times matrix L x N, and matrix M x L times diagonal L x N
template <class T, index_t M, index_t L, index_t N, int K, bool DYN>
void diagmul(Ctx& c) {
    auto dl = rdiag<T>(c, M, L); auto b = dm_rand<T>(c, L, N), junk = dm_rand<T>(c, M, N);
    auto a = dm_rand<T>(c, M, L); auto dr = rdiag<T>(c, L, N);
    c.note = str([&](auto& o) { o << "diag " << dl << " * " << b << "; " << a << " * diag " << dr << "; " << kind_name(K) << (DYN ? " dynamic" : ""); });
    auto DL = mkdiag<T, DYN ? 0 : M, DYN ? 0 : L>(dl); auto DR = mkdiag<T, DYN ? 0 : L, DYN ? 0 : N>(dr);
    Hold<T, L, N, K> B(b); Hold<T, M, L, K> A(a); Hold<T, M, N, (K * 2 + 1) % N_KINDS> D(junk);
    dm_same(c, DL * B.m, dm_mul(dl, b), "diag*matrix");
    dm_same(c, A.m * DR, dm_mul(a, dr), "matrix*diag");
    mul(&D.m, DL, B.m); dm_same(c, D.m, dm_mul(dl, b), "dest<-diag*matrix");
    dm_write(D.m, junk); mul(&D.m, A.m, DR); dm_same(c, D.m, dm_mul(a, dr), "dest<-matrix*diag");
    // diag * diag
    dm_same(c, DL * DR, dm_mul(dl, dr), "diag*diag");
    dm_write(D.m, junk); mul(&D.m, DL, DR); dm_same(c, D.m, dm_mul(dl, dr), "dense<-diag*diag");
    dm_write(D.m, junk); mul_acc(&D.m, DL, DR); { auto w = dm_mul(dl, dr); for (size_t i = 0; i < w.v.size(); ++i) w.v[i] += junk.v[i]; dm_same(c, D.m, w, "dense+=diag*diag"); }
    auto j = rdiag<T>(c, M, N); auto DD = mkdiag<T, M, N>(j); mul(&DD, DL, DR); dm_same(c, DD, dm_mul(dl, dr), "diag<-diag*diag");
    DD = mkdiag<T, M, N>(j); mul_acc(&DD, DL, DR); { auto w = dm_mul(dl, dr); for (size_t i = 0; i < w.v.size(); ++i) w.v[i] += j.v[i]; dm_same(c, DD, w, "diag+=diag*diag"); }
    // in place, square on the right
    auto sq = rdiag<T>(c, L, L); auto SQ = mkdiag<T, DYN ? 0 : L, DYN ? 0 : L>(sq);
    auto& ret = (A.m *= SQ); c.check((void*)&ret == (void*)&A.m, "*=-returns-self"); dm_same(c, A.m, dm_mul(a, sq), "matrix*=diag");
    DL *= SQ; dm_same(c, DL, dm_mul(dl, sq), "diag*=diag");
    c.cover(M == L && L == N ? "square-diagonals" : "nonsquare-diagonals");
    c.nontrivial(hcomb(hcomb(dm_hash(dl), dm_hash(b)), hcomb(dm_hash(a), dm_hash(dr))));
}
template <class T, index_t M, index_t L, index_t N> void diag_suite(Ctx& c) {
    void (*f[])(Ctx&) = {diagmul<T, M, L, N, K_SROW, false>, diagmul<T, M, L, N, K_SCOL, true>, diagmul<T, M, L, N, K_DROW, false>, diagmul<T, M, L, N, K_WCOL, false>, diagmul<T, M, L, N, K_DCOLSH, true>};
    f[c.rng.below(5)](c);
}
TSUITE("diag-3x3x3", 3000, 30000, diag_suite<double, 3, 3, 3>)
TSUITE("diag-2x4x3", 3000, 30000, diag_suite<double, 2, 4, 3>)
TSUITE("diag-4x2x3", 3000, 30000, diag_suite<float, 4, 2, 3>)
TSUITE("diag-3x4x4", 3000, 30000, diag_suite<int, 3, 4, 4>)

// ---- permutation matrices on either side, and vectors
template <class T, index_t M, index_t N, int K, bool DYN> void permmul(Ctx& c) {
    auto mkp = [&](auto& P, index_t n, DM<T>& d) { std::vector<index_t> s(n); for (index_t i = 0; i < n; ++i) s[i] = i; for (index_t i = n - 1; i > 0; --i) std::swap(s[i], s[c.rng.below(i + 1)]); P.setRowSources(s.data()); d = DM<T>(n, n); for (index_t i = 0; i < n; ++i) d(i, s[i]) = 1; };
    DM<T> dl, dr; PermutationMatrix<DYN ? 0 : M> P(M); PermutationMatrix<DYN ? 0 : N> Q(N); mkp(P, M, dl); mkp(Q, N, dr); auto a = dm_rand<T>(c, M, N), junk = dm_rand<T>(c, M, N);
    c.note = str([&](auto& o) { o << dl << " * " << a << " * " << dr << "; " << kind_name(K); }); Hold<T, M, N, K> A(a); Hold<T, M, N, (K * 2 + 1) % N_KINDS> D(junk);
    dm_same(c, P * A.m, dm_mul(dl, a), "permutation*matrix"); dm_same(c, A.m * Q, dm_mul(a, dr), "matrix*permutation"); mul(&D.m, P, A.m); dm_same(c, D.m, dm_mul(dl, a), "dest<-permutation*matrix"); dm_write(D.m, junk); mul(&D.m, A.m, Q); dm_same(c, D.m, dm_mul(a, dr), "dest<-matrix*permutation"); dm_same(c, A.m, a, "permuted-operand-changed");
    dm_same(c, (P * A.m) * Q, dm_mul(dm_mul(dl, a), dr), "permutation*matrix*permutation"); if constexpr (!DYN) { auto x = dm_rand<T>(c, N, 1), y = dm_rand<T>(c, 1, M); Vec<T, N> v(x.v.data()); Vec<T, M> w(y.v.data()); Vec<T, N> qv = Q * v; vec_same(c, qv, dm_mul(dr, x), "permutation*vector"); Vec<T, M> wp = w * P; vec_same(c, wp, dm_mul(y, dl), "vector*permutation"); vec_same(c, mul(&qv, Q, v), dm_mul(dr, x), "vec<-permutation*vector"); vec_same(c, mul(&wp, w, P), dm_mul(y, dl), "vec<-vector*permutation");
        SimpleMatrix<T, N, 1> qm; SimpleMatrix<T, 1, M> wm; mul(&qm, Q, v); dm_same(c, qm, dm_mul(dr, x), "n x 1<-permutation*vector"); mul(&wm, w, P); dm_same(c, wm, dm_mul(y, dl), "1 x n<-vector*permutation");
        PermutationMatrix<M> P2(M); DM<T> dl2; mkp(P2, M, dl2); SimpleMatrix<T, M, M> pp; mul(&pp, P, P2); dm_same(c, pp, dm_mul(dl, dl2), "dense<-permutation*permutation"); }
    mul(&A.m, P, A.m); dm_same(c, A.m, dm_mul(dl, a), "permuted-in-place"); dm_write(A.m, a); mul(&A.m, A.m, Q); dm_same(c, A.m, dm_mul(a, dr), "columns-permuted-in-place"); c.cover("permutations"); c.nontrivial(hcomb(dm_hash(dl), hcomb(dm_hash(a), dm_hash(dr))));
}
template <class T, index_t M, index_t N> void perm_suite(Ctx& c) { void (*f[])(Ctx&) = {permmul<T, M, N, K_SROW, false>, permmul<T, M, N, K_SCOL, true>, permmul<T, M, N, K_DROW, true>, permmul<T, M, N, K_WCOL, false>, permmul<T, M, N, K_DCOLSH, true>}; f[c.rng.below(5)](c); }
TSUITE("permutation-3x4", 3000, 30000, perm_suite<double, 3, 4>)
TSUITE("permutation-5x3", 3000, 30000, perm_suite<double, 5, 3>)
