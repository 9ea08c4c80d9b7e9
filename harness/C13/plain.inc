#include "mtx.h"
using namespace vh;

// ---- plain matrices: every storage kind as operand and destination, exact integer arithmetic
template <class T, index_t M, index_t L, index_t N, int KA, int KB, int KD>
void plain(Ctx& c) {
    auto a = dm_rand<T>(c, M, L), b = dm_rand<T>(c, L, N), d = dm_rand<T>(c, M, N);
    c.note = str([&](auto& o) { o << kind_name(KA) << " " << a << " * " << kind_name(KB) << " " << b << " -> " << kind_name(KD); });
    auto want = dm_mul(a, b);
    Hold<T, M, L, KA> A(a); Hold<T, L, N, KB> B(b); Hold<T, M, N, KD> D(d);
    dm_same(c, A.m * B.m, want, "operator*");
    dm_same(c, mul(A.m, B.m), want, "mul");
    auto& ret = mul(&D.m, A.m, B.m);
    c.check((const void*)&ret == (const void*)&D.m, "mul-returns-dest");
    dm_same(c, D.m, want, "mul-into");
    dm_same(c, A.m, a, "left-operand-changed"); dm_same(c, B.m, b, "right-operand-changed");
    dm_write(D.m, d);
    mul_acc(&D.m, A.m, B.m);
    DM<T> acc = want; for (size_t i = 0; i < acc.v.size(); ++i) acc.v[i] += d.v[i];
    dm_same(c, D.m, acc, "mul_acc");
    // through a type-erased handle
    MatrixWrapper<typename Hold<T, M, L, KA>::type> ha(&A.m); MatrixHandle<T>& H = ha;
    dm_same(c, H * B.m, want, "handle*matrix");
    c.cover("product-pairs"); c.cover(str([&](auto& o) { o << "dest-" << kind_name(KD); }));
    c.nontrivial(hcomb(hcomb(dm_hash(a), dm_hash(b)), hcomb(KA * 100 + KB * 10 + KD, dm_hash(d))));
    if (c.want_sample()) c.sample(c.note + str([&](auto& o) { o << " = " << want; }));
}
template <class T, index_t M, index_t L, index_t N, int... I>
void plain_all(Ctx& c, std::integer_sequence<int, I...>) {
    void (*f[])(Ctx&) = {plain<T, M, L, N, I, (I * 2 + 1) % N_KINDS, (I * 5 + 3) % N_KINDS>...};
    f[c.rng.below(sizeof...(I))](c);
}
template <class T, index_t M, index_t L, index_t N> void plain_suite(Ctx& c) { plain_all<T, M, L, N>(c, std::make_integer_sequence<int, N_KINDS>()); }
