#include "lin.h"
#include <geomc/linalg/Orthogonal.h>
using namespace vh;
template <class T> ld eps() { return std::numeric_limits<T>::epsilon(); }

// n independent vectors of dimension N (Gram determinant far from zero), or an exactly dependent set
template <class T, index_t N> bool gen(Ctx& c, index_t n, Vec<T, N>* b, ld* cond) {
    bool zero_lead = c.rng.chance(.35), integer = c.rng.coin();
    for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < N; ++j) { b[i][j] = c.rng.range(-9, 9); if (c.rng.chance(zero_lead ? .5 : .1)) b[i][j] = 0; if (!integer) b[i][j] *= (T)c.rng.uniform(.5, 1.5); }
    if (zero_lead) { index_t z = c.rng.range(1, N); for (index_t i = 0; i < n; ++i) b[i][z - 1] = 0; }
    LM G(n, n), iv; for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) for (index_t k = 0; k < N; ++k) G(i, j) += (ld)b[i][k] * b[j][k];
    if (n == 0) { *cond = 1; return true; }
    if (!ld_inverse(G, iv)) return false;
    *cond = sqrtl(norm_inf(G) * norm_inf(iv)); return *cond < 300;
}
template <class T, index_t N> ld ldot(const Vec<T, N>& a, const Vec<T, N>& b) { ld s = 0; for (index_t i = 0; i < N; ++i) s += (ld)a[i] * b[i]; return s; }
template <class T, index_t N> ld lmag(const Vec<T, N>& a) { return sqrtl(ldot(a, a)); }
// distance of x from the span of n independent vectors
template <class T, index_t N> ld off_span(const Vec<T, N>* b, index_t n, const Vec<T, N>& x, std::vector<ld>* proj = nullptr) {
    LM G(n, n), iv; std::vector<ld> r(N); for (index_t k = 0; k < N; ++k) r[k] = x[k]; if (proj) proj->assign(N, 0);
    if (n) { for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) G(i, j) = ldot(b[i], b[j]); if (!ld_inverse(G, iv)) return -1; for (index_t i = 0; i < n; ++i) { ld co = 0; for (index_t j = 0; j < n; ++j) co += iv(i, j) * ldot(b[j], x); for (index_t k = 0; k < N; ++k) { r[k] -= co * b[i][k]; if (proj) (*proj)[k] += co * b[i][k]; } } }
    ld s = 0; for (auto y : r) s += y * y; return sqrtl(s);
}
template <class T, index_t N> std::string show(const Vec<T, N>* b, index_t n) { return str([&](auto& o) { for (index_t i = 0; i < n; ++i) o << b[i] << " "; }); }

template <class T, index_t N>
void ortho(Ctx& c) {
    index_t n = c.rng.range(1, N); Vec<T, N> b[N], o[N], z[N]; ld cond;
    if (!gen<T, N>(c, n, b, &cond)) { c.cover("skipped-near-dependent"); return; }
    c.note = show(b, n); ld tol = 300 * N * eps<T>() * cond; u64 h = hcomb(n, hstr(c.note.c_str()));
    // orthogonalize: first unchanged, pairwise orthogonal, same leading spans
    std::copy(b, b + n, o); orthogonalize(o, n);
    c.check(o[0] == b[0], "first-vector-changed");
    for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < i; ++j) c.check(fabsl(ldot(o[i], o[j])) <= tol * lmag(o[i]) * lmag(o[j]), "not-orthogonal", [&](auto& s) { s << show(o, n); });
    for (index_t i = 0; i < n; ++i) { c.check(lmag(o[i]) > 0, "orthogonalized-to-zero"); c.check(off_span(b, i + 1, o[i]) <= tol * lmag(b[i]) + tol * lmag(o[i]), "leaves-the-span", [&](auto& s) { s << "vector " << i << " of " << show(o, n); }); }
    // orthonormalize
    std::copy(b, b + n, o); orthonormalize(o, n);
    for (index_t i = 0; i < n; ++i) { c.check(fabsl(lmag(o[i]) - 1) <= tol, "not-unit"); for (index_t j = 0; j < i; ++j) c.check(fabsl(ldot(o[i], o[j])) <= tol, "orthonormalized-not-orthogonal"); c.check(off_span(b, i + 1, o[i]) <= tol, "orthonormalized-leaves-the-span"); }
    c.check(ldot(o[0], b[0]) >= (1 - tol) * lmag(b[0]), "first-direction-changed");
    // projection onto the span
    Vec<T, N> x; for (index_t k = 0; k < N; ++k) x[k] = c.rng.range(-9, 9); std::vector<ld> pr; off_span(b, n, x, &pr);
    auto pcmp = [&](const Vec<T, N>& p, const char* w) { ld e = 0; for (index_t k = 0; k < N; ++k) e = std::max(e, fabsl(p[k] - pr[k])); c.check(e <= tol * (1 + lmag(x)), w, [&](auto& s) { s << "got " << p << " for " << x; }); };
    pcmp(project_to_orthogonal_subspace(o, x, n), "project_to_orthogonal_subspace");
    { std::copy(b, b + n, z); pcmp(project_to_subspace(z, x, n), "project_to_subspace"); }
    // null space
    if (n < N) {
        std::fill(z, z + N, Vec<T, N>((T)99)); bool ok = nullspace(b, n, z); c.check(ok, "independent-bases-refused");
        index_t k = N - n; LM G(k, k), iv;
        for (index_t i = 0; i < k; ++i) for (index_t j = 0; j < n; ++j) c.check(fabsl(ldot(z[i], b[j])) <= tol * cond * (lmag(z[i]) * lmag(b[j])), "null-vector-not-orthogonal", [&](auto& s) { s << show(z, k); });
        for (index_t i = 0; i < k; ++i) for (index_t j = 0; j < k; ++j) G(i, j) = ldot(z[i], z[j]) / (lmag(z[i]) * lmag(z[j])); bool full = ld_inverse(G, iv); c.check(full, "null-vectors-dependent", [&](auto& s) { s << show(z, k); });
        for (index_t i = k; i < N; ++i) c.check(z[i] == Vec<T, N>((T)99), "wrote-past-null-basis");
        // in place: bases and null basis in one array
        Vec<T, N> w[N]; std::copy(b, b + n, w); nullspace(w, n, w); for (index_t i = 0; i < k; ++i) { ld e = 0; for (index_t j = 0; j < n; ++j) e = std::max(e, fabsl(ldot(w[i], b[j])) / (lmag(w[i]) * lmag(b[j]))); c.check(e <= tol * cond, "aliased-null-space", [&](auto& s) { s << show(w, k); }); }
        c.cover("null-spaces");
    }
    if (n == N - 1) { auto v = orthogonal<T>(b); c.check(lmag(v) > 0, "orthogonal-is-zero"); for (index_t j = 0; j < n; ++j) c.check(fabsl(ldot(v, b[j])) <= tol * cond * lmag(v) * lmag(b[j]), "orthogonal-is-not", [&](auto& s) { s << v; }); c.cover("normals"); }
    c.cover("independent-sets"); c.nontrivial(h);
    // dependent set
    if (n > 1 && n < N) {
        Vec<T, N> d[N]; std::copy(b, b + n, d); index_t i = c.rng.below(n), j = (i + 1) % n; bool zero = c.rng.coin(); d[i] = zero ? Vec<T, N>() : d[j];
        Vec<T, N> nb[N]; bool ok = nullspace(d, n, nb);
        if (zero) { for (index_t q = 0; q < N - n; ++q) c.check(nb[q] == Vec<T, N>(), "null-basis-of-dependent-set-not-zero", [&](auto& s) { s << show(d, n) << " -> " << show(nb, N - n); }); if (N - n > 1) c.check(!ok, "dependent-set-accepted"); }
        if (n == N - 1) { if (zero) c.check(orthogonal<T>(d) == Vec<T, N>(), "orthogonal-of-dependent-set"); }
        c.cover("dependent-sets");
    }
}
TSUITE("ortho-3", 6000, 80000, (ortho<double, 3>))
TSUITE("ortho-4", 6000, 80000, (ortho<double, 4>))
TSUITE("ortho-5", 6000, 80000, (ortho<double, 5>))
TSUITE("ortho-7", 4000, 50000, (ortho<double, 7>))
TSUITE("ortho-4-float", 4000, 50000, (ortho<float, 4>))
SUITE("ortho-2", 4000, 40000) {
    Vec<double, 2> b[2], o[2]; ld cond; if (!gen<double, 2>(c, 2, b, &cond)) { c.cover("skipped-near-dependent"); return; } c.note = show(b, 2);
    std::copy(b, b + 2, o); orthogonalize(o, 2); c.check(o[0] == b[0], "first-vector-changed"); c.check(fabsl(ldot(o[0], o[1])) <= 1e-12 * lmag(o[0]) * lmag(o[1]) && lmag(o[1]) > 0, "not-orthogonal");
    std::copy(b, b + 2, o); orthonormalize(o, 2); c.check(fabsl(ldot(o[0], o[1])) <= 1e-13 && fabsl(lmag(o[0]) - 1) < 1e-13 && fabsl(lmag(o[1]) - 1) < 1e-13, "not-orthonormal");
    auto v = orthogonal<double>(b); c.check(fabsl(ldot(v, b[0])) <= 1e-13 * lmag(b[0]) * lmag(v) && lmag(v) > 0, "orthogonal-is-not");
    Vec<double, 2> z[2]; z[1] = Vec<double, 2>(5, 5); c.check(nullspace(b, 1, z) && fabsl(ldot(z[0], b[0])) <= 1e-13 * lmag(b[0]) * lmag(z[0]) && lmag(z[0]) > 0 && z[1] == Vec<double, 2>(5, 5), "null-space");
    c.nontrivial(hstr(c.note.c_str()));
}
