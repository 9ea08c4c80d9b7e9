#include "access.inc"
SUITE("constructors", 5000, 60000) {
    auto a = dm_rand<double>(c, 3, 2, 99); auto& v = a.v; auto t = dm_txp(a);
    c.note = str([&](auto& o) { o << a; });
    { SimpleMatrix<double, 3, 2> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) c.check(m(i, j) == (i == j), "default-is-identity"); }
    { SimpleMatrix<double, 0, 0> m(3, 2); for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) c.check(m(i, j) == (i == j), "sized-is-identity"); }
    { SimpleMatrix<double, 3, 2> m(v.data()); dm_same(c, m, a, "from-array"); SimpleMatrix<double, 0, 0> d(v.data(), 3, 2); dm_same(c, d, a, "from-array-dynamic"); v[0] += 1; c.check(m(0, 0) == v[0] - 1 && d(0, 0) == v[0] - 1, "owned-matrix-follows-source-array"); v[0] -= 1; }
    { SimpleMatrix<double, 3, 2> m({v[0], v[1], v[2], v[3], v[4], v[5]}); dm_same(c, m, a, "from-list"); SimpleMatrix<double, 0, 0> d({v[0], v[1], v[2], v[3], v[4], v[5]}, 3, 2); dm_same(c, d, a, "from-list-dynamic"); }
    { SimpleMatrix<double, 3, 2> m{Vec<double, 2>(v[0], v[1]), Vec<double, 2>(v[2], v[3]), Vec<double, 2>(v[4], v[5])}; dm_same(c, m, a, "from-rows"); }
    { SimpleMatrix<double, 2, 3, COL_MAJOR> m{Vec<double, 2>(v[0], v[1]), Vec<double, 2>(v[2], v[3]), Vec<double, 2>(v[4], v[5])}; dm_same(c, m, t, "from-columns"); }
    { SimpleMatrix<double, 3, 2, ROW_MAJOR, STORAGE_WRAPPED> m(v.data()); dm_same(c, m, a, "wrap"); m(1, 1) = 1000; c.check(v[3] == 1000, "wrapper-writes-elsewhere"); v[4] = 2000; c.check(m(2, 0) == 2000, "wrapper-reads-elsewhere"); auto m2 = m; m2(0, 0) = 7; c.check(v[0] == 7, "wrapper-copy-is-not-a-reference"); }
    { SimpleMatrix<double, 0, 2, COL_MAJOR, STORAGE_WRAPPED> m(v.data(), 3); c.check(m.rows() == 3 && m.cols() == 2 && m(2, 1) == v[5] && m(0, 1) == v[3], "wrap-one-dynamic-dimension"); }
    // copies of dynamic matrices: unique duplicates, shared refers to one array
    index_t r = c.rng.range(1, 5), k = c.rng.range(1, 5), i = c.rng.below(r), j = c.rng.below(k); auto b = dm_rand<double>(c, r, k);
    { SimpleMatrix<double, 0, 0> m(r, k); dm_write(m, b); auto n = m; n(i, j) += 1; dm_same(c, m, b, "copy-shares"); auto o = std::move(n); c.check(o(i, j) == b(i, j) + 1 && o.rows() == r && o.cols() == k, "move"); m = o; c.check(m(i, j) == b(i, j) + 1, "copy-assign"); m(i, j) += 1; c.check(o(i, j) == b(i, j) + 1, "assigned-copy-shares"); }
    { SimpleMatrix<double, 0, 0> m(r, k), s(2, 7); dm_write(m, b); s = m; dm_same(c, s, b, "assign-different-size"); s = std::move(m); dm_same(c, s, b, "move-assign"); auto& z = s; s = z; dm_same(c, s, b, "self-assign"); }
    { SimpleMatrix<double, 0, 0, COL_MAJOR, STORAGE_SHARED> m(r, k); dm_write(m, b); auto n = m; n(i, j) += 1; c.check(m(i, j) == b(i, j) + 1, "shared-copy-duplicates"); }
    c.cover("constructions");
    c.nontrivial(hcomb(dm_hash(a), dm_hash(b)));
}
// diagonal and permutation matrices through the same read interface
SUITE("structured-readers", 3000, 30000) {
    index_t r = c.rng.range(1, 5), k = c.rng.range(1, 5), n = std::min(r, k); DM<double> d(r, k); DiagMatrix<double, 0, 0> g(r, k);
    for (index_t i = 0; i < n; ++i) g.diagonal(i) = d(i, i) = c.rng.range(-9, 9);
    c.note = str([&](auto& o) { o << "diag " << d; });
    readers<double>(c, std::as_const(g), d);
    c.check(g.diagonal_end() - g.diagonal_begin() == n, "diagonal-size"); for (index_t i = 0; i < n; ++i) c.check(g.diagonal_begin()[i] == d(i, i), "diagonal-iteration");
    { DiagMatrix<double, 3, 3> e; for (int i = 0; i < 3; ++i) c.check(e.diagonal(i) == 1, "diag-default-identity"); double src[3] = {double(c.rng.range(-9, 9)), double(c.rng.range(-9, 9)), 5}; DiagMatrix<double, 3, 3> f(src); for (int i = 0; i < 3; ++i) c.check(f(i, i) == src[i], "diag-from-array"); }
    index_t p = c.rng.range(1, 6); std::vector<index_t> s(p); for (index_t i = 0; i < p; ++i) s[i] = i; for (index_t i = p - 1; i > 0; --i) std::swap(s[i], s[c.rng.below(i + 1)]);
    PermutationMatrix<0> P(p); P.setRowSources(s.data()); DM<double> qd(p, p); for (index_t i = 0; i < p; ++i) qd(i, s[i]) = 1;
    readers<double>(c, std::as_const(P), qd);
    c.cover("structured");
    c.nontrivial(hcomb(dm_hash(d), dm_hash(qd)));
}
