#include "mtx.h"
using namespace vh;

// random-access iterator laws against a reference sequence (It need not be default constructible)
template <class It, class T>
bool iter_laws(Ctx& c, It b, It e, const std::vector<T>& ref, const char* what) {
    index_t n = ref.size();
    bool ok = c.check(e - b == n && b - e == -n, what, [&](auto& o) { o << "distance " << (e - b) << " want " << n; });
    if (!ok) return false;
    { It i = b; for (index_t k = 0; k < n && ok; ++k, ++i) ok = c.check(T(*i) == ref[k] && i != e && T(b[k]) == ref[k] && T(*(b + k)) == ref[k], what, [&](auto& o) { o << "forward at " << k << ": " << T(*i) << " want " << ref[k]; }); ok = ok && c.check(i == e, what, [&](auto& o) { o << "end not reached"; }); }
    { It i = e; for (index_t k = n - 1; k >= 0 && ok; --k) { --i; ok = c.check(T(*i) == ref[k], what, [&](auto& o) { o << "backward at " << k << ": " << T(*i) << " want " << ref[k]; }); } if (n) ok = ok && c.check(i == b, what, [&](auto& o) { o << "begin not reached"; }); }
    index_t pos = 0; It i = b;
    for (int s = 0; s < 12 && ok; ++s) {
        index_t to = c.rng.range(0, n); int m = c.rng.below(6);
        if (m == 0) i += to - pos; else if (m == 1) i -= pos - to; else if (m == 2) i = b + to; else if (m == 3) i = e - (n - to); else if (m == 4) { to = std::min(pos + 1, n); if (to != pos) { It old = i++; ok = c.check(old - b == pos, what, [&](auto& o) { o << "post-increment"; }); } } else { to = std::max<index_t>(pos - 1, 0); if (to != pos) { It old = i--; ok = c.check(old - b == pos, what, [&](auto& o) { o << "post-decrement"; }); } }
        pos = to;
        ok = ok && c.check(i - b == pos && e - i == n - pos && (i == e) == (pos == n) && (i < e) == (pos < n) && (pos == n || T(*i) == ref[pos]), what, [&](auto& o) { o << "after a jump to " << pos << " of " << n << ": at " << (i - b); });
        It j = b + c.rng.range(0, n); index_t q = j - b; ok = ok && c.check(i - j == pos - q && (i < j) == (pos < q) && (i == j) == (pos == q) && (i >= j) == (pos >= q), what, [&](auto& o) { o << "comparison of positions " << pos << ", " << q; });
    }
    c.cover("iterator-walks");
    return ok;
}

template <class T> std::vector<T> dm_rowv(const DM<T>& a, index_t r) { std::vector<T> v; for (index_t j = 0; j < a.c; ++j) v.push_back(a(r, j)); return v; }
template <class T> std::vector<T> dm_colv(const DM<T>& a, index_t k) { std::vector<T> v; for (index_t i = 0; i < a.r; ++i) v.push_back(a(i, k)); return v; }

// every way of reading one matrix
template <class T, class M> void readers(Ctx& c, const M& m, const DM<T>& a) {
    index_t r = c.rng.below(a.r), k = c.rng.below(a.c);
    c.check(m.rows() == a.r && m.cols() == a.c, "dimensions");
    for (index_t i = 0; i < a.r; ++i) for (index_t j = 0; j < a.c; ++j) c.check(T(m(i, j)) == a(i, j) && T(m[i][j]) == a(i, j) && T(m.row(i)[j]) == a(i, j) && T(m.col(j)[i]) == a(i, j), "element-access", [&](auto& o) { o << i << "," << j; });
    iter_laws<decltype(m.begin()), T>(c, m.begin(), m.end(), a.v, "whole-matrix-iteration");
    iter_laws<decltype(m.row(r)), T>(c, m.row(r), m.row(r) + a.c, dm_rowv(a, r), "row-iteration");
    iter_laws<decltype(m.col(k)), T>(c, m.col(k), m.col(k) + a.r, dm_colv(a, k), "column-iteration");
    // iterators are equal just if they name the same element
    if (a.r * a.c > 0) for (int n = 0; n < 4; ++n) { index_t i = c.rng.below(a.r), j = c.rng.below(a.c), i1 = c.rng.coin() ? i : c.rng.below(a.r), j1 = c.rng.coin() ? j : c.rng.below(a.c); bool same = i == i1 && j == j1;
        c.eq((m.row(i) + j) == (m.row(i1) + j1), same, "row-iterators-equal"); c.eq((m.col(j) + i) == (m.col(j1) + i1), same, "column-iterators-equal"); c.eq((m.begin() + (i * a.c + j)) == (m.begin() + (i1 * a.c + j1)), same, "iterators-equal"); if (i != i1) c.cover("other-row-iterators"); }
    // sub-region (integer regions include their upper corner), row-major
    index_t r1 = c.rng.range(r, a.r - 1), k1 = c.rng.range(k, a.c - 1);
    MatrixRegion reg(Vec<index_t, 2>(r, k), Vec<index_t, 2>(r1, k1)); std::vector<T> sub;
    for (index_t i = r; i <= r1; ++i) for (index_t j = k; j <= k1; ++j) sub.push_back(a(i, j));
    iter_laws<decltype(m.region_begin(reg)), T>(c, m.region_begin(reg), m.region_end(reg), sub, "region-iteration");
    { auto it = m.region_begin(reg); index_t n = c.rng.below(sub.size()); it += n; auto p = it.point(); c.check(p[0] == r + n / (k1 - k + 1) && p[1] == k + n % (k1 - k + 1), "region-iterator-point"); }
    c.cover("regions");
}

template <class T, index_t M, index_t N, int K>
void access(Ctx& c) {
    auto a = dm_rand<T>(c, M, N, 99);
    c.note = str([&](auto& o) { o << kind_name(K) << " " << a; });
    Hold<T, M, N, K> A(a);
    dm_same(c, A.m, a, "set");
    readers<T>(c, std::as_const(A.m), a); readers<T>(c, A.m, a);
    // storage order
    constexpr bool row = Hold<T, M, N, K>::row;
    c.check(A.m.data_end() - A.m.data_begin() == M * N, "data-size");
    for (index_t i = 0; i < M; ++i) for (index_t j = 0; j < N; ++j) c.check(A.m.data_begin()[row ? i * N + j : j * M + i] == a(i, j), "data-order");
    // writes: exactly the addressed element changes
    for (int s = 0; s < 8; ++s) {
        index_t i = c.rng.below(M), j = c.rng.below(N); T x = T(c.rng.range(-99, 99)); const char* w;
        switch (c.rng.below(8)) {
            case 0: A.m(i, j) = x; w = "write-m(i,j)"; break;
            case 1: { auto&& q = A.m.set(i, j, x); c.check(T(q) == x, "set-returns-element"); w = "write-set"; break; }
            case 2: A.m[i][j] = x; w = "write-m[i][j]"; break;
            case 3: *(A.m.begin() + (i * N + j)) = x; w = "write-iterator"; break;
            case 4: A.m.row(i)[j] = x; w = "write-row"; break;
            case 5: A.m.col(j)[i] = x; w = "write-col"; break;
            case 6: { auto t = A.m.as_transpose(); t(j, i) = x; w = "write-through-as_transpose"; break; }
            default: { MatrixRegion reg(Vec<index_t, 2>(i, j), Vec<index_t, 2>(M - 1, N - 1)); auto it = A.m.region_begin(reg); *it = x; w = "write-region"; break; }
        }
        a(i, j) = x; dm_same(c, A.m, a, w); c.cover("writes");
    }
    { auto t = A.m.as_transpose(); dm_same(c, t, dm_txp(a), "as_transpose"); c.check(t.data_begin() == A.m.data_begin(), "as_transpose-copies"); auto u = t.as_transpose(); dm_same(c, u, a, "as_transpose-twice"); readers<T>(c, std::as_const(t), dm_txp(a)); }
    // algorithms over the iterators
    { T s = 0, w = 0; for (auto it = A.m.begin(); it != A.m.end(); ++it) s += *it; for (auto x : a.v) w += x; c.check(s == w, "sum"); std::reverse(A.m.begin(), A.m.end()); std::reverse(a.v.begin(), a.v.end()); dm_same(c, A.m, a, "std::reverse"); std::sort(A.m.begin(), A.m.end()); std::sort(a.v.begin(), a.v.end()); dm_same(c, A.m, a, "std::sort"); }
    { index_t j = c.rng.below(N); auto v = dm_colv(a, j); std::sort(v.begin(), v.end(), std::greater<T>()); std::sort(A.m.col(j), A.m.col(j) + M, std::greater<T>()); for (index_t i = 0; i < M; ++i) a(i, j) = v[i]; dm_same(c, A.m, a, "sort-column"); }
    // handle
    { MatrixWrapper<typename Hold<T, M, N, K>::type> w(&A.m); MatrixHandle<T>& H = w; readers<T>(c, std::as_const(H), a); index_t i = c.rng.below(M), j = c.rng.below(N); T x = T(c.rng.range(-99, 99));
      switch (c.rng.below(5)) { case 0: H.set(i, j, x); break; case 1: H[i][j] = x; break; case 2: H.row(i)[j] = x; break; case 3: H.col(j)[i] = x; break; default: H.begin()[i * N + j] = x; }
      a(i, j) = x; dm_same(c, A.m, a, "write-through-handle"); c.cover("handle-writes"); }
    c.nontrivial(hcomb(dm_hash(a), K));
    c.cover(kind_name(K));
}
template <class T, index_t M, index_t N, int... I> void access_all(Ctx& c, std::integer_sequence<int, I...>) { void (*f[])(Ctx&) = {access<T, M, N, I>...}; f[c.rng.below(sizeof...(I))](c); }
template <class T, index_t M, index_t N> void access_suite(Ctx& c) { access_all<T, M, N>(c, std::make_integer_sequence<int, N_KINDS>()); }
