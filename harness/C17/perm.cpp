#include "mtx.h"
using namespace vh;

typedef std::vector<index_t> Map;
inline Map rand_map(Ctx& c, index_t n) { Map s(n); for (index_t i = 0; i < n; ++i) s[i] = i; for (index_t i = n - 1; i > 0; --i) if (!c.rng.chance(.15)) std::swap(s[i], s[c.rng.below(i + 1)]); return s; }
inline int parity(const Map& s) { int inv = 0; for (size_t i = 0; i < s.size(); ++i) for (size_t j = i + 1; j < s.size(); ++j) inv += s[i] > s[j]; return inv & 1 ? -1 : 1; }
inline DM<double> dense(const Map& s) { DM<double> d(s.size(), s.size()); for (size_t i = 0; i < s.size(); ++i) d(i, s[i]) = 1; return d; }
inline Map inverse(const Map& s) { Map d(s.size()); for (size_t i = 0; i < s.size(); ++i) d[s[i]] = i; return d; }

template <index_t N> PermutationMatrix<N> mk(index_t n) { if constexpr (N == 0) return PermutationMatrix<N>(n); else return PermutationMatrix<N>(); }

// the permutation matrix is in every respect the one with row sources `s`
template <index_t N> bool is_perm(Ctx& c, const PermutationMatrix<N>& P, const Map& s, const char* what) {
    index_t n = s.size(); Map d = inverse(s);
    bool ok = P.rows() == n && P.cols() == n;
    for (index_t i = 0; ok && i < n; ++i) ok = P.getRowSources()[i] == s[i] && P.getColDestinations()[i] == s[i] && P.getColSources()[i] == d[i] && P.getRowDestinations()[i] == d[i];
    ok = ok && det(P) == parity(s);
    { auto Q = P; ok = ok && Q.sign() == parity(s) && Q.sign() == parity(s); for (index_t i = 0; ok && i < n; ++i) ok = Q.getRowSources()[i] == s[i] && Q.getColSources()[i] == d[i]; }
    c.check(ok, what, [&](auto& o) { o << "row sources"; for (index_t i = 0; i < n; ++i) o << " " << P.getRowSources()[i]; o << " col sources"; for (index_t i = 0; i < n; ++i) o << " " << P.getColSources()[i]; auto Q = P; o << " det " << det(P) << " sign " << Q.sign() << " want"; for (auto x : s) o << " " << x; o << " sign " << parity(s); });
    return ok && dm_same(c, P, dense(s), what);
}

template <index_t N, bool BIG = false>
void history(Ctx& c) {
    index_t n = N ? N : BIG ? c.rng.range(20, 80) : c.rng.range(1, 7);
    auto P = mk<N>(n); Map s(n); for (index_t i = 0; i < n; ++i) s[i] = i;
    is_perm(c, P, s, "starts-as-identity");
    std::string h;
    int len = c.rng.range(1, BIG ? 6 : 14);
    for (int k = 0; k < len; ++k) {
        index_t a = c.rng.below(n), b = c.rng.below(n); const char* w; auto q = rand_map(c, n);
        switch (c.rng.below(13)) {
            case 0: P.setRowSources(q.data()); s = q; w = "setRowSources"; break;
            case 1: P.setColSources(q.data()); s = inverse(q); w = "setColSources"; break;
            case 2: P.setRowDestinations(q.data()); s = inverse(q); w = "setRowDestinations"; break;
            case 3: P.setColDestinations(q.data()); s = q; w = "setColDestinations"; break;
            case 4: case 5: P.swap_rows(a, b); std::swap(s[a], s[b]); w = "swap_rows"; break;
            case 6: case 7: { P.swap_cols(a, b); Map d = inverse(s); std::swap(d[a], d[b]); s = inverse(d); w = "swap_cols"; break; }
            case 8: P.transpose(); s = inverse(s); w = "transpose"; break;
            case 9: c.check(P.sign() == parity(s), "sign"); w = "sign"; break;
            case 10: { auto Q = mk<N>(n); Q.setRowSources(q.data()); auto R = P * Q; Map r(n); for (index_t i = 0; i < n; ++i) r[i] = q[s[i]]; is_perm(c, Q, q, "factor-changed"); is_perm(c, P, s, "factor-changed"); P = R; s = r; w = "product"; break; }
            case 11: { auto Q = mk<N>(n); Q.setRowSources(q.data()); mul(&P, P, Q); Map r(n); for (index_t i = 0; i < n; ++i) r[i] = q[s[i]]; s = r; w = "product-in-place"; break; }
            default: P.set_identity(); for (index_t i = 0; i < n; ++i) s[i] = i; w = "set_identity"; break;
        }
        h += w; h += ' '; c.note = h; c.cover("operations"); c.cover(w);
        if (!is_perm(c, P, s, w)) return;
    }
    // value operations on the result
    { auto T = transpose(P); is_perm(c, T, inverse(s), "transposed-copy"); bool ok = false; auto I = inv(P, &ok); c.check(ok, "inverse-fails"); is_perm(c, I, inverse(s), "inverse"); auto J = mk<N>(n); c.check(inv(&J, P), "inverse-into-fails"); is_perm(c, J, inverse(s), "inverse-into"); auto E = P * I; auto Id = mk<N>(n); c.check(E == Id && !(E != Id), "times-inverse-is-identity"); is_perm(c, P, s, "operand-changed"); }
    { auto q = rand_map(c, n); auto Q = mk<N>(n); Q.setRowSources(q.data()); c.check((P == Q) == (q == s) && (P != Q) == (q != s), "equality"); Q = P; c.check(P == Q, "copy-equal"); if (n > 1) { Q.swap_rows(0, 1); c.check(P != Q, "swapped-differs"); is_perm(c, P, s, "copy-shares-storage"); } mtxcopy(&Q, P); is_perm(c, Q, s, "mtxcopy"); }
    { Map b = s; c.check(permutation_sign(b.data(), n) == parity(s), "permutation_sign"); }
    // applied to matrices and vectors
    index_t k = c.rng.range(1, 4); auto m = dm_rand<double>(c, n, k), l = dm_rand<double>(c, k, n);
    SimpleMatrix<double, 0, 0> A(n, k); SimpleMatrix<double, 0, 0, COL_MAJOR> B(k, n); dm_write(A, m); dm_write(B, l);
    dm_same(c, P * A, dm_mul(dense(s), m), "permutation*matrix"); dm_same(c, B * P, dm_mul(l, dense(s)), "matrix*permutation");
    { SimpleMatrix<double, 0, 0> D(n, k); mul(&D, P, A); dm_same(c, D, dm_mul(dense(s), m), "permutation*matrix-into"); mul(&A, P, A); dm_same(c, A, dm_mul(dense(s), m), "permutation*matrix-in-place"); }
    { SimpleMatrix<double, 0, 0> D(k, n); mul(&D, B, P); dm_same(c, D, dm_mul(l, dense(s)), "matrix*permutation-into"); mul(&B, B, P); dm_same(c, B, dm_mul(l, dense(s)), "matrix*permutation-in-place"); }
    { SimpleMatrix<double, 0, 0> D(n, n); mtxcopy(&D, P); dm_same(c, D, dense(s), "copy-to-dense"); c.check(D == P && P == D, "dense-equals-permutation"); }
    if constexpr (N > 0) { auto x = dm_rand<double>(c, N, 1), y = dm_rand<double>(c, 1, N); Vec<double, N> v(x.v.data()), w(y.v.data()), z; z = P * v; vec_same(c, z, dm_mul(dense(s), x), "permutation*vector"); z = w * P; vec_same(c, z, dm_mul(y, dense(s)), "vector*permutation"); mul(&v, P, v); vec_same(c, v, dm_mul(dense(s), x), "permutation*vector-in-place"); }
    u64 hh = hstr(h.c_str()); for (auto x : s) hh = hcomb(hh, x);
    c.nontrivial(hh); c.cover(parity(s) < 0 ? "odd" : "even"); if (n > 32) c.cover("beyond-inline-buffer");
}
TSUITE("history-1", 300, 3000, history<1>)
TSUITE("history-2", 1000, 10000, history<2>)
TSUITE("history-3", 4000, 40000, history<3>)
TSUITE("history-4", 4000, 60000, history<4>)
TSUITE("history-7", 4000, 60000, history<7>)
TSUITE("history-dynamic", 6000, 80000, history<0>)
// beyond the inline buffer of the sign computation (32)
TSUITE("history-large", 150, 3000, (history<0, true>))
TSUITE("history-40", 100, 1500, history<40>)

// every permutation of up to 7 items
FSUITE("all-permutations", 5913) {
    index_t n = 1, k = c.index; for (index_t f = 1; k >= f; f *= ++n) k -= f;
    Map pool(n), s; for (index_t i = 0; i < n; ++i) pool[i] = i;
    for (index_t i = n; i > 0; --i) { index_t j = k % i; k /= i; s.push_back(pool[j]); pool.erase(pool.begin() + j); }
    c.note = str([&](auto& o) { for (auto x : s) o << x << " "; });
    PermutationMatrix<0> P(n); P.setRowSources(s.data()); is_perm(c, P, s, "all"); Map b = s; c.check(permutation_sign(b.data(), n) == parity(s), "permutation_sign");
    P.transpose(); is_perm(c, P, inverse(s), "all-transposed");
    u64 h = n; for (auto x : s) h = hcomb(h, x); c.nontrivial(h); c.cover("all");
}
