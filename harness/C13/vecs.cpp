#include "mtx.h"
using namespace vh;

// ---- vectors
template <class T, index_t M, index_t N, int K>
void vecs(Ctx& c) {
    auto a = dm_rand<T>(c, M, N); auto cv = dm_rand<T>(c, N, 1), rv = dm_rand<T>(c, 1, M), x = dm_rand<T>(c, M, 1), y = dm_rand<T>(c, 1, N);
    c.note = str([&](auto& o) { o << kind_name(K) << " " << a << " col " << cv << " row " << rv; });
    Hold<T, M, N, K> A(a);
    Vec<T, N> v(cv.v.data()); Vec<T, M> w(rv.v.data());
    auto want_c = dm_mul(a, cv), want_r = dm_mul(rv, a);
    auto got_c = A.m * v; auto got_r = w * A.m;
    auto got_c2 = mul(A.m, v); auto got_r2 = mul(w, A.m);
    if constexpr (std::is_same<decltype(got_c), Vec<T, M>>::value) { vec_same(c, got_c, want_c, "matrix*vec"); vec_same(c, got_c2, want_c, "mul(matrix,vec)"); } else { dm_same(c, got_c, want_c, "matrix*vec"); dm_same(c, got_c2, want_c, "mul(matrix,vec)"); }
    if constexpr (std::is_same<decltype(got_r), Vec<T, N>>::value) { vec_same(c, got_r, want_r, "vec*matrix"); vec_same(c, got_r2, want_r, "mul(vec,matrix)"); } else { dm_same(c, got_r, want_r, "vec*matrix"); dm_same(c, got_r2, want_r, "mul(vec,matrix)"); }
    Vec<T, M> dc(x.v.data()); Vec<T, N> dr(y.v.data());
    mul(&dc, A.m, v); vec_same(c, dc, want_c, "mul(vec<-matrix*vec)");
    mul(&dr, w, A.m); vec_same(c, dr, want_r, "mul(vec<-vec*matrix)");
    dc = Vec<T, M>(x.v.data()); dr = Vec<T, N>(y.v.data());
    mul_acc(&dc, A.m, v); mul_acc(&dr, w, A.m);
    for (size_t i = 0; i < x.v.size(); ++i) want_c.v[i] += x.v[i];
    for (size_t i = 0; i < y.v.size(); ++i) want_r.v[i] += y.v[i];
    vec_same(c, dc, want_c, "mul_acc(vec,matrix,vec)"); vec_same(c, dr, want_r, "mul_acc(vec,vec,matrix)");
    SimpleMatrix<T, M, 1> mc; SimpleMatrix<T, 1, N> mr;
    mul(&mc, A.m, v); dm_same(c, mc, dm_mul(a, cv), "mul(n x 1 <- matrix*vec)");
    mul(&mr, w, A.m); dm_same(c, mr, dm_mul(rv, a), "mul(1 x n <- vec*matrix)");
    for (index_t i = 0; i < M; ++i) mc(i, 0) = x.v[i];
    for (index_t i = 0; i < N; ++i) mr(0, i) = y.v[i];
    mul_acc(&mc, A.m, v); mul_acc(&mr, w, A.m);
    dm_same(c, mc, want_c, "mul_acc(n x 1 += matrix*vec)"); dm_same(c, mr, want_r, "mul_acc(1 x n += vec*matrix)");
    c.cover("vector-products");
    c.nontrivial(hcomb(hcomb(dm_hash(a), dm_hash(cv)), hcomb(dm_hash(rv), K)));
}
template <class T, index_t M, index_t N, int... I> void vecs_all(Ctx& c, std::integer_sequence<int, I...>) { void (*f[])(Ctx&) = {vecs<T, M, N, I>...}; f[c.rng.below(sizeof...(I))](c); }
template <class T, index_t M, index_t N> void vecs_suite(Ctx& c) { vecs_all<T, M, N>(c, std::make_integer_sequence<int, N_KINDS>()); }
TSUITE("vec-double-3x4", 3000, 30000, vecs_suite<double, 3, 4>)
TSUITE("vec-int-4x2", 3000, 30000, vecs_suite<int, 4, 2>)
