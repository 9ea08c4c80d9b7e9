#include "mtx.h"
using namespace vh;

// ---- mismatched dimensions are refused and nothing is written
template <class F> bool throws_dim(F&& f) { try { f(); } catch (const DimensionMismatchException&) { return true; } return false; }
SUITE("dimension-mismatch", 6000, 60000) {
    index_t ar = c.rng.range(1, 4), ac = c.rng.range(1, 4), br = c.rng.range(1, 4), bc = c.rng.range(1, 4), dr = c.rng.range(1, 4), dc = c.rng.range(1, 4);
    if (c.rng.coin()) br = ac;
    if (c.rng.coin()) { dr = ar; }
    if (c.rng.coin()) { dc = bc; }
    c.note = str([&](auto& o) { o << ar << "x" << ac << " * " << br << "x" << bc << " -> " << dr << "x" << dc; });
    auto a = dm_rand<double>(c, ar, ac), b = dm_rand<double>(c, br, bc), d = dm_rand<double>(c, dr, dc);
    SimpleMatrix<double, 0, 0> A(ar, ac), D(dr, dc); SimpleMatrix<double, 0, 0, COL_MAJOR> B(br, bc);
    dm_write(A, a); dm_write(B, b); dm_write(D, d);
    bool bad = ac != br, badd = bad || dr != ar || dc != bc;
    c.check(throws_dim([&] { auto x = A * B; dm_same(c, x, dm_mul(a, b), "operator*"); }) == bad, "operator*-mismatch");
    c.check(throws_dim([&] { mul(&D, A, B); }) == badd, "mul-mismatch");
    dm_same(c, D, badd ? d : dm_mul(a, b), badd ? "refused-mul-wrote-dest" : "mul");
    dm_write(D, d);
    c.check(throws_dim([&] { mul_acc(&D, A, B); }) == badd, "mul_acc-mismatch");
    if (badd) dm_same(c, D, d, "refused-mul_acc-wrote-dest");
    // half static
    { SimpleMatrix<double, 3, 0> S(3, bc); bool k = bad || ar != 3; c.check(throws_dim([&] { mul(&S, A, B); }) == k, "mul-static-rows-mismatch"); }
    { SimpleMatrix<double, 2, 2> S; c.check(throws_dim([&] { auto x = S * B; }) == (br != 2), "static*dynamic-mismatch"); c.check(throws_dim([&] { auto x = A * S; }) == (ac != 2), "dynamic*static-mismatch"); }
    { Vec<double, 3> v(1, 2, 3), w; c.check(throws_dim([&] { auto x = A * v; }) == (ac != 3), "dynamic*vec-mismatch"); c.check(throws_dim([&] { auto x = v * A; }) == (ar != 3), "vec*dynamic-mismatch");
      c.check(throws_dim([&] { mul(&w, A, v); }) == (ac != 3 || ar != 3), "vec<-dynamic*vec-mismatch"); c.check(throws_dim([&] { mul(&w, v, A); }) == (ar != 3 || ac != 3), "vec<-vec*dynamic-mismatch"); }
    { Vec<double, 3> w; bool ok = !bad && ((ar == 3 && bc == 1) || (ar == 1 && bc == 3)); c.check(throws_dim([&] { mul(&w, A, B); vec_same(c, w, dm_mul(a, b), "vec<-dynamic*dynamic"); }) == !ok, "vec<-dynamic*dynamic-mismatch"); }
    { DiagMatrix<double, 0, 0> G(br, bc); c.check(throws_dim([&] { auto x = A * G; }) == bad, "matrix*diag-mismatch"); DiagMatrix<double, 0, 0> H(ar, ac); c.check(throws_dim([&] { auto x = H * B; }) == bad, "diag*matrix-mismatch"); c.check(throws_dim([&] { auto x = H * G; }) == bad, "diag*diag-mismatch");
      bool t = false; auto A2 = A; try { A2 *= G; } catch (const GeomException&) { t = true; } c.check(t == (bad || br != bc), "*=diag-mismatch"); }
    { PermutationMatrix<0> P(br); c.check(throws_dim([&] { auto x = A * P; }) == bad, "matrix*permutation-mismatch"); c.check(throws_dim([&] { auto x = P * B; }) == false, "permutation*matrix-mismatch"); PermutationMatrix<0> Q(ac); c.check(throws_dim([&] { auto x = Q * B; }) == bad, "permutation*matrix-mismatch"); c.check(throws_dim([&] { auto x = Q * P; }) == bad, "permutation*permutation-mismatch"); }
    c.cover(badd ? "refused" : "accepted");
    c.nontrivial(hcomb(hcomb(ar * 100 + ac * 10 + br, bc * 100 + dr * 10 + dc), dm_hash(a)));
}
