// Reference matrices and generators shared by the matrix monitors.
#pragma once
#include "vh.h"
#include <memory>
#include <geomc/linalg/Matrix.h>

namespace vh {
using namespace geom;

// dense reference matrix
template <class T> struct DM {
    index_t r = 0, c = 0;
    std::vector<T> v;
    DM() {}
    DM(index_t r, index_t c) : r(r), c(c), v(r * c, T(0)) {}
    T& operator()(index_t i, index_t j) { return v[i * c + j]; }
    T operator()(index_t i, index_t j) const { return v[i * c + j]; }
    index_t rows() const { return r; }
    index_t cols() const { return c; }
};
template <class T> DM<T> dm_mul(const DM<T>& a, const DM<T>& b) {
    DM<T> d(a.r, b.c);
    for (index_t i = 0; i < a.r; ++i) for (index_t j = 0; j < b.c; ++j) { T s = 0; for (index_t k = 0; k < a.c; ++k) s += a(i, k) * b(k, j); d(i, j) = s; }
    return d;
}
template <class T> DM<T> dm_txp(const DM<T>& a) { DM<T> d(a.c, a.r); for (index_t i = 0; i < a.r; ++i) for (index_t j = 0; j < a.c; ++j) d(j, i) = a(i, j); return d; }
template <class T> DM<T> dm_rand(Ctx& c, index_t r, index_t k, int lim = 9) {
    DM<T> d(r, k);
    int sparse = c.rng.below(3);
    for (auto& x : d.v) x = (sparse == 0 && c.rng.coin()) ? T(0) : T(c.rng.range(-lim, lim));
    return d;
}
template <class T> std::ostream& operator<<(std::ostream& o, const DM<T>& m) {
    o << m.r << "x" << m.c << "[";
    for (index_t i = 0; i < m.r; ++i) { if (i) o << "; "; for (index_t j = 0; j < m.c; ++j) o << (j ? " " : "") << m(i, j); }
    return o << "]";
}
template <class T> u64 dm_hash(const DM<T>& m) { u64 h = hcomb(m.r, m.c); for (auto x : m.v) h = hcomb(h, hval((double)x)); return h; }

template <class T, class M> DM<T> dm_read(const M& m) { DM<T> d(m.rows(), m.cols()); for (index_t i = 0; i < d.r; ++i) for (index_t j = 0; j < d.c; ++j) d(i, j) = m(i, j); return d; }
template <class T, index_t N> DM<T> dm_col(const Vec<T, N>& v) { DM<T> d(N, 1); for (index_t i = 0; i < N; ++i) d(i, 0) = v[i]; return d; }
template <class T, index_t N> DM<T> dm_row(const Vec<T, N>& v) { DM<T> d(1, N); for (index_t i = 0; i < N; ++i) d(0, i) = v[i]; return d; }

template <class T, class M> void dm_write(M& m, const DM<T>& d) { for (index_t i = 0; i < d.r; ++i) for (index_t j = 0; j < d.c; ++j) m.set(i, j, d(i, j)); }

// matrix `m` has exactly the elements of `want`
template <class T, class M> bool dm_same(Ctx& c, const M& m, const DM<T>& want, const char* what) {
    bool ok = m.rows() == want.r && m.cols() == want.c;
    for (index_t i = 0; ok && i < want.r; ++i) for (index_t j = 0; ok && j < want.c; ++j) ok = m(i, j) == want(i, j);
    return c.check(ok, what, [&](auto& o) { DM<T> g(m.rows(), m.cols()); for (index_t i = 0; i < g.r; ++i) for (index_t j = 0; j < g.c; ++j) g(i, j) = m(i, j); o << "got " << g << " want " << want; });
}
template <class T, index_t N> bool vec_same(Ctx& c, const Vec<T, N>& v, const DM<T>& want, const char* what) {
    bool ok = (index_t)want.v.size() == N;
    for (index_t i = 0; ok && i < N; ++i) ok = v[i] == want.v[i];
    return c.check(ok, what, [&](auto& o) { o << "got " << dm_row(v) << " want " << want; });
}

// every way of storing an M x N matrix
enum { K_SROW, K_SCOL, K_ROWDYN, K_COLDYN, K_DROW, K_DCOLSH, K_WCOL, K_WROW, K_SSH, N_KINDS };
inline const char* kind_name(int k) { static const char* n[] = {"static-row", "static-col", "dynrows-row", "dyncols-col", "dynamic-row", "dynamic-col-shared", "wrapper-col", "dynamic-wrapper-row", "static-row-shared"}; return n[k]; }
template <class T, index_t M, index_t N, int K> struct KindT;
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_SROW> { typedef SimpleMatrix<T, M, N> type; };
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_SCOL> { typedef SimpleMatrix<T, M, N, COL_MAJOR> type; };
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_ROWDYN> { typedef SimpleMatrix<T, 0, N> type; };
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_COLDYN> { typedef SimpleMatrix<T, M, 0, COL_MAJOR> type; };
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_DROW> { typedef SimpleMatrix<T, 0, 0> type; };
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_DCOLSH> { typedef SimpleMatrix<T, 0, 0, COL_MAJOR, STORAGE_SHARED> type; };
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_WCOL> { typedef SimpleMatrix<T, M, N, COL_MAJOR, STORAGE_WRAPPED> type; };
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_WROW> { typedef SimpleMatrix<T, 0, 0, ROW_MAJOR, STORAGE_WRAPPED> type; };
template <class T, index_t M, index_t N> struct KindT<T, M, N, K_SSH> { typedef SimpleMatrix<T, M, N, ROW_MAJOR, STORAGE_SHARED> type; };

template <class T, index_t M, index_t N, int K> struct Hold {
    typedef typename KindT<T, M, N, K>::type type;
    static constexpr bool row = K == K_SROW || K == K_ROWDYN || K == K_DROW || K == K_WROW || K == K_SSH;
    std::unique_ptr<T[]> buf;
    type m;
    static type make(T* p) {
        if constexpr (K == K_WCOL) return type(p);
        else if constexpr (K == K_WROW) return type(p, M, N);
        else if constexpr (type::ROWDIM * type::COLDIM == 0) return type(M, N);
        else return type();
    }
    Hold() : buf(K == K_WCOL || K == K_WROW ? new T[M * N]() : nullptr), m(make(buf.get())) {}
    explicit Hold(const DM<T>& d) : Hold() { dm_write(m, d); }
};

// wrapper of given layout over caller memory
template <class T, MatrixLayout L> SimpleMatrix<T, 0, 0, L, STORAGE_WRAPPED> wrap(T* p, index_t r, index_t c) { return SimpleMatrix<T, 0, 0, L, STORAGE_WRAPPED>(p, r, c); }

} // namespace vh
