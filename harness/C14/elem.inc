#include "mtx.h"
using namespace vh;

template <class T> DM<T> dm_lin(const DM<T>& a, T ka, const DM<T>& b, T kb) { DM<T> d(a.r, a.c); for (size_t i = 0; i < d.v.size(); ++i) d.v[i] = ka * a.v[i] + kb * b.v[i]; return d; }
template <class T> DM<T> dm_eye(index_t r, index_t k) { DM<T> d(r, k); for (index_t i = 0; i < std::min(r, k); ++i) d(i, i) = 1; return d; }

// sums, differences, scaling, transposes, copies and comparison over every storage kind
template <class T, index_t M, index_t N, int KA, int KB, int KD>
void elem(Ctx& c) {
    auto a = dm_rand<T>(c, M, N), b = dm_rand<T>(c, M, N), junk = dm_rand<T>(c, M, N), junkt = dm_rand<T>(c, N, M);
    if (c.rng.chance(.3)) { b = a; if (c.rng.coin()) b.v[c.rng.below(b.v.size())] += T(1); }
    T k = T(c.rng.range(-5, 5));
    c.note = str([&](auto& o) { o << kind_name(KA) << " " << a << ", " << kind_name(KB) << " " << b << ", k " << k << ", dest " << kind_name(KD); });
    Hold<T, M, N, KA> A(a); Hold<T, M, N, KB> B(b); Hold<T, M, N, KD> D(junk); Hold<T, N, M, (KD + 4) % N_KINDS> Dt(junkt);
    auto sum = dm_lin<T>(a, 1, b, 1), dif = dm_lin<T>(a, 1, b, -1), sc = dm_lin<T>(a, k, b, 0), tx = dm_txp(a);
    dm_same(c, A.m + B.m, sum, "a+b"); dm_same(c, A.m - B.m, dif, "a-b");
    dm_same(c, k * A.m, sc, "k*a"); dm_same(c, A.m * k, sc, "a*k");
    add(&D.m, A.m, B.m); dm_same(c, D.m, sum, "add-into"); sub(&D.m, A.m, B.m); dm_same(c, D.m, dif, "sub-into"); scale(&D.m, k, A.m); dm_same(c, D.m, sc, "scale-into");
    dm_same(c, transpose(A.m), tx, "transpose"); transpose(&Dt.m, A.m); dm_same(c, Dt.m, tx, "transpose-into");
    if constexpr (KA != K_WCOL && KA != K_WROW) { auto A2 = A.m; A2 *= k; dm_same(c, A2, sc, "a*=k"); if (A2.data_begin() != A.m.data_begin()) dm_same(c, A.m, a, "scaling-a-copy-changed-source"); }
    else { Hold<T, M, N, KA> A2(a); auto W = A2.m; W *= k; dm_same(c, A2.m, sc, "wrapper*=k"); }
    Hold<T, M, N, KA> A0(a); // shared storage: restart
    // in place
    { Hold<T, M, N, KA> X(a); add(&X.m, X.m, B.m); dm_same(c, X.m, sum, "x=x+b"); }
    { Hold<T, M, N, KA> X(a); sub(&X.m, B.m, X.m); dm_same(c, X.m, dm_lin<T>(b, 1, a, -1), "x=b-x"); }
    { Hold<T, M, N, KA> X(a); scale(&X.m, k, X.m); dm_same(c, X.m, sc, "x=k*x"); add(&X.m, X.m, X.m); dm_same(c, X.m, dm_lin<T>(a, 2 * k, a, 0), "x=x+x"); sub(&X.m, X.m, X.m); dm_same(c, X.m, DM<T>(M, N), "x=x-x"); }
    // copies
    D.m.set_zero(); dm_same(c, D.m, DM<T>(M, N), "set_zero"); mtxcopy(&D.m, A0.m); dm_same(c, D.m, a, "mtxcopy");
    { SimpleMatrix<T, M, N> C(A0.m); dm_same(c, C, a, "construct-row-major"); SimpleMatrix<T, 0, 0, COL_MAJOR> E(A0.m); dm_same(c, E, a, "construct-dynamic-col-major"); E(0, 0) += T(3); dm_same(c, A0.m, a, "constructed-copy-shares-storage"); }
    D.m.set_identity(); dm_same(c, D.m, dm_eye<T>(M, N), "set_identity");
    // comparison
    bool same = a.v == b.v;
    c.check((A0.m == B.m) == same && (B.m == A0.m) == same, "operator=="); c.check((A0.m != B.m) != same && (B.m != A0.m) != same, "operator!=");
    c.check(A0.m == A0.m && !(A0.m != A0.m), "self-equality");
    dm_same(c, A0.m, a, "operand-changed"); dm_same(c, B.m, b, "operand-changed");
    c.cover(same ? "equal-pairs" : "unequal-pairs"); c.cover(M == N ? "square" : "nonsquare");
    c.nontrivial(hcomb(hcomb(dm_hash(a), dm_hash(b)), hcomb(KA * 100 + KB * 10 + KD, (u64)(k + 5))));
}
template <class T, index_t M, index_t N, int... I> void elem_all(Ctx& c, std::integer_sequence<int, I...>) { void (*f[])(Ctx&) = {elem<T, M, N, I, (I * 2 + 1) % N_KINDS, (I * 5 + 3) % N_KINDS>...}; f[c.rng.below(sizeof...(I))](c); }
template <class T, index_t M, index_t N> void elem_suite(Ctx& c) { elem_all<T, M, N>(c, std::make_integer_sequence<int, N_KINDS>()); }
