#include "lin.h"
#include <geomc/linalg/Cholesky.h>
using namespace vh;
template <class T> ld eps() { return std::numeric_limits<T>::epsilon(); }

template <class T, index_t N, int K>
void chol(Ctx& c) {
    const index_t n = N; auto g = dm_rand<T>(c, n, n + c.rng.below(2), 5); LM G = lm(g); LM A = dm_mul(G, dm_txp(G));
    T shift = T(c.rng.range(1, 4)); for (index_t i = 0; i < n; ++i) A(i, i) += shift; // positive definite, smallest eigenvalue >= shift
    DM<T> a(n, n); for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = A.v[i];
    // not positive definite: a negative, zero or dominated diagonal
    int bad = c.rng.below(6); index_t q = c.rng.below(n); bool pd = true;
    if (bad == 0) { a(q, q) = -a(q, q); pd = false; }
    if (bad == 1) { a(q, q) = 0; pd = false; }
    if (bad == 2 && n > 1) { index_t p = (q + 1) % n; T big = 1 + std::ceil(std::sqrt((double)(a(q, q) * a(p, p)))); a(p, q) = a(q, p) = c.rng.coin() ? big * 2 : -big * 2; pd = false; }
    c.note = str([&](auto& o) { o << kind_name(K) << " " << a; });
    Hold<T, n, n, K> M(a); bool ok = cholesky(&M.m);
    c.check(ok == pd, "definiteness", [&](auto& o) { o << "cholesky returned " << ok; });
    if (pd && ok) {
        LM L(n, n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) { L(i, j) = M.m(i, j); if (j > i) c.check(M.m(i, j) == 0, "upper-triangle-not-zero"); if (i == j) c.check(M.m(i, j) > 0, "diagonal-not-positive"); }
        ld big = 0; for (auto x : a.v) big = std::max(big, fabsl((ld)x));
        dm_near<ld>(c, dm_mul(L, dm_txp(L)), lm(a), 20 * n * eps<T>() * big, "factor-times-transpose");
    }
    // bare array
    constexpr bool row = Hold<T, n, n, K>::row; std::vector<T> v(n * n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) v[row ? i * n + j : j * n + i] = a(i, j);
    bool ok2 = cholesky<T, row>(v.data(), n); c.check(ok2 == pd, "definiteness-array");
    if (pd && ok) for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) c.near(v[row ? i * n + j : j * n + i], M.m(i, j), 1e-3 * (1 + fabs((double)M.m(i, j))), "array-agrees-with-matrix");
    c.cover(pd ? "definite" : "indefinite"); c.nontrivial(hcomb(dm_hash(a), K));
}
template <class T, index_t N> void suite(Ctx& c) { void (*f[])(Ctx&) = {chol<T, N, K_SROW>, chol<T, N, K_SCOL>, chol<T, N, K_DROW>, chol<T, N, K_DCOLSH>, chol<T, N, K_WCOL>}; f[c.rng.below(5)](c); }
TSUITE("cholesky-1", 1000, 10000, (suite<double, 1>))
TSUITE("cholesky-2", 4000, 50000, (suite<double, 2>))
TSUITE("cholesky-3", 5000, 60000, (suite<double, 3>))
TSUITE("cholesky-5", 5000, 60000, (suite<double, 5>))
TSUITE("cholesky-4-float", 5000, 60000, (suite<float, 4>))
TSUITE("cholesky-12", 500, 8000, (suite<double, 12>))
TSUITE("cholesky-30", 150, 3000, (suite<double, 30>))
SUITE("nonsquare", 2000, 20000) {
    index_t r = c.rng.range(1, 5), k = c.rng.range(1, 5); auto a = dm_rand<double>(c, r, k); SimpleMatrix<double, 0, 0> A(r, k); dm_write(A, a);
    c.note = str([&](auto& o) { o << a; });
    if (r != k) { c.check(!cholesky(&A), "nonsquare-accepted"); dm_same(c, A, a, "nonsquare-changed"); c.cover("nonsquare"); }
    c.nontrivial(dm_hash(a));
}
