#pragma once
#include "geo.h"
#include <geomc/linalg/AffineTransform.h>
// reference: homogeneous matrix in long double, its inverse, and the magnitudes that went into each element
template <index_t N> struct Ref {
    typedef std::array<std::array<ld, N + 1>, N + 1> M; M m, i, am, ai; int ops = 0;
    static M id() { M r{}; for (int k = 0; k <= N; ++k) r[k][k] = 1; return r; }
    Ref() : m(id()), i(id()), am(id()), ai(id()) {}
    static M mul(const M& a, const M& b) { M r{}; for (int x = 0; x <= N; ++x) for (int y = 0; y <= N; ++y) { ld s = 0; for (int k = 0; k <= N; ++k) s += a[x][k] * b[k][y]; r[x][y] = s; } return r; }
    static M absm(M a) { for (auto& r : a) for (auto& x : r) x = fabsl(x); return a; }
    void finish() { am = absm(m); ai = absm(i); ops = 1; }
    Ref then(const Ref& o) const { Ref r; r.m = mul(o.m, m); r.am = mul(o.am, am); r.i = mul(i, o.i); r.ai = mul(ai, o.ai); r.ops = ops + o.ops; return r; }
    Ref inverse() const { Ref r = *this; std::swap(r.m, r.i); std::swap(r.am, r.ai); return r; }
    static ld tr(const M& a, const std::array<ld, N + 1>& p, int row) { ld s = 0; for (int k = 0; k <= N; ++k) s += a[row][k] * p[k]; return s; }
};
template <class T, index_t N> bool agrees(Ctx& c, const AffineTransform<T, N>& x, const Ref<N>& r, const char* what, ld k = 1) {
    const ld E = std::numeric_limits<T>::epsilon() * k * (8 + 12 * (r.ops + 1)); bool ok = true;
    for (int a = 0; a <= N; ++a) for (int b = 0; b <= N; ++b) ok = ok && fabsl(x.mat(a, b) - r.m[a][b]) <= E * r.am[a][b] && fabsl(x.inv(a, b) - r.i[a][b]) <= E * r.ai[a][b];
    return c.check(ok, what, [&](auto& o) { for (int w = 0; w < 2; ++w) for (int a = 0; a <= N; ++a) for (int b = 0; b <= N; ++b) o << (b ? " " : a ? "; " : w ? " | inverse " : "") << (w ? x.inv : x.mat)(a, b) << "/" << (double)(w ? r.i : r.m)[a][b]; });
}
// one elementary transform, with its reference and the name of how it was made
template <class T, index_t N> AffineTransform<T, N> elementary(Ctx& c, Ref<N>& ref, std::string& how) {
    typedef Vec<T, N> V; typedef AffineTransform<T, N> X; ref = Ref<N>(); X x;
    T r = c.rng.chance(.2) ? (T)(c.rng.range(-4, 4) * (PIL / 2)) : (T)c.rng.uniform(-7, 7);
    auto rot = [&](const Vec<ld, 3>& ax, const Vec<ld, 3>& ctr, ld ang) { if constexpr (N == 3) { for (int k = 0; k < 3; ++k) { Vec<ld, 3> e; e[k] = 1; auto q = rodrigues(e, ax, ang), qi = rodrigues(e, ax, -ang); for (int j = 0; j < 3; ++j) { ref.m[j][k] = q[j]; ref.i[j][k] = qi[j]; } } auto t = ctr - rodrigues(ctr, ax, ang), ti = ctr - rodrigues(ctr, ax, -ang); for (int j = 0; j < 3; ++j) { ref.m[j][3] = t[j]; ref.i[j][3] = ti[j]; } ref.finish(); ld cm = lmag<3>(ctr); for (int a = 0; a < 3; ++a) for (int b = 0; b <= 3; ++b) { ref.am[a][b] = ref.ai[a][b] = b < 3 ? 1 : 2 * cm; } } };
    switch (c.rng.below(N == 3 ? 10 : N == 2 ? 5 : 4)) {
        case 0: { V t = rdir<T, N>(c); x = translation(t); if constexpr (N == 3) if (c.rng.coin()) x = translation(t[0], t[1], t[2]); if constexpr (N == 2) if (c.rng.coin()) x = translation(t[0], t[1]); for (int k = 0; k < N; ++k) { ref.m[k][N] = t[k]; ref.i[k][N] = -t[k]; } ref.finish(); how = "translation"; return x; }
        case 1: { V s; for (int k = 0; k < N; ++k) s[k] = c.rng.chance(.2) ? (T)(c.rng.coin() ? 1 : -1) : (T)c.rng.logmag(-1, 1); x = scale(s); if constexpr (N == 3) if (c.rng.coin()) x = scale(s[0], s[1], s[2]); if constexpr (N == 2) if (c.rng.coin()) x = scale(s[0], s[1]); for (int k = 0; k < N; ++k) { ref.m[k][k] = s[k]; ref.i[k][k] = 1 / (ld)s[k]; } ref.finish(); how = "scale"; return x; }
        case 2: case 3: { // a well-conditioned matrix: unit lower times unit upper, entries bounded by 1
            SimpleMatrix<T, N, N> m; std::array<std::array<ld, N>, N> lo{}, up{}; for (int a = 0; a < N; ++a) { lo[a][a] = 1; up[a][a] = c.rng.coin() ? 1 : -2; for (int b = 0; b < a; ++b) lo[a][b] = c.rng.range(-2, 2) * .5L; for (int b = a + 1; b < N; ++b) up[a][b] = c.rng.range(-2, 2) * .5L; } int perm[N]; for (int a = 0; a < N; ++a) perm[a] = a; for (int a = N - 1; a > 0; --a) std::swap(perm[a], perm[c.rng.below(a + 1)]);
            std::array<std::array<ld, N>, N> mm{}; for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { ld s = 0; for (int k = 0; k < N; ++k) s += lo[a][k] * up[k][b]; mm[perm[a]][b] = s; } for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) m(a, b) = mm[a][b];
            // exact inverse by Gauss-Jordan in long double
            std::array<std::array<ld, 2 * N>, N> g{}; for (int a = 0; a < N; ++a) { for (int b = 0; b < N; ++b) g[a][b] = mm[a][b]; g[a][N + a] = 1; } for (int k = 0; k < N; ++k) { int p = k; for (int a = k; a < N; ++a) if (fabsl(g[a][k]) > fabsl(g[p][k])) p = a; std::swap(g[p], g[k]); ld d = g[k][k]; for (auto& q : g[k]) q /= d; for (int a = 0; a < N; ++a) if (a != k) { ld f = g[a][k]; for (int b = 0; b < 2 * N; ++b) g[a][b] -= f * g[k][b]; } }
            x = transformation(m); ld big = 0; for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { ref.m[a][b] = mm[a][b]; ref.i[a][b] = g[a][N + b]; big = std::max({big, fabsl(mm[a][b]), fabsl(g[a][N + b])}); } ref.finish(); for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) ref.ai[a][b] = big * big * N; how = "matrix"; return x; }
        case 4: if constexpr (N == 2) { x = rotation(r); ref.m[0][0] = ref.m[1][1] = ref.i[0][0] = ref.i[1][1] = cosl(r); ref.m[1][0] = ref.i[0][1] = sinl(r); ref.m[0][1] = ref.i[1][0] = -sinl(r); ref.finish(); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) ref.am[a][b] = ref.ai[a][b] = 1; how = "rotation"; return x; } [[fallthrough]];
        default: if constexpr (N == 3) { Vec<T, 3> ax = rdir<T, 3>(c), ctr = rdir<T, 3>(c);
            switch (c.rng.below(7)) {
                case 0: x = rotation(ax, r); rot(L(ax), {}, r); how = "rotation-axis"; break;
                case 1: x = rotation(ax, ctr, r); rot(L(ax), L(ctr), r); how = "rotation-center"; break;
                case 2: { Quat<T> q; for (int k = 0; k < 4; ++k) q[k] = c.rng.gauss(); x = rotation(q); Vec<ld, 3> im(q.x, q.y, q.z); rot(im, {}, 2 * atan2l(lmag<3>(im), q.w)); how = "rotation-quaternion"; break; }
                case 4: { // bare matrices, which want a unit axis
                    Vec<T, 3> u = unitv<T, 3>(c); SimpleMatrix<T, 4, 4> m, inv; int f = c.rng.below(6); T junk = (T)c.rng.uniform(-9, 9); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { m(a, b) = junk; inv(a, b) = junk; }
                    Ref<N> keep = ref; const char* form = "?"; bool both = false, three = false; SimpleMatrix<T, 3, 3> m3; Vec<ld, 3> e; int k = c.rng.below(3); e[k] = 1;
                    switch (f) {
                        case 0: rotmat(&m, u, r); rot(L(u), {}, r); form = "rotmat-axis"; break;
                        case 1: rotmat(&m, u, ctr, r); rot(L(u), L(ctr), r); form = "rotmat-center"; break;
                        case 2: rotmat(&m, &inv, u, ctr, r); both = true; rot(L(u), L(ctr), r); form = "rotmat-center-inverse"; break;
                        case 3: { Quat<T> q = Quat<T>::rotation_from_axis_angle(u, r); rotmat(&m, q); rot(L(u), {}, r); form = "rotmat-quaternion"; break; }
                        case 4: if (k == 0) rotmat_x(&m, r); else if (k == 1) rotmat_y(&m, r); else rotmat_z(&m, r); rot(e, {}, r); form = "rotmat-xyz-4"; break;
                        default: m3 = k == 0 ? rotmat_x(r) : k == 1 ? rotmat_y(r) : rotmat_z(r); three = true; rot(e, {}, r); form = "rotmat-xyz-3";
                    }
                    ld tol = 40 * (ld)std::numeric_limits<T>::epsilon(), scale = 1 + lmag<3>(L(ctr)); bool ok = true;
                    for (int a = 0; a < (three ? 3 : 4); ++a) for (int b = 0; b < (three ? 3 : 4); ++b) { ld t = tol * (b == 3 ? scale : 1); ok = ok && fabsl((three ? m3(a, b) : m(a, b)) - ref.m[a][b]) <= t && (!both || fabsl(inv(a, b) - ref.i[a][b]) <= t); if (a == 3) ok = ok && m(a, b) == (b == 3) && (!both || inv(a, b) == (b == 3)); }
                    c.check(ok, form, [&](auto& o) { o << "axis " << sv(u) << " center " << sv(ctr) << " angle " << (double)r << " axis index " << k; }); c.cover("rotmat"); ref = keep; x = rotation(ax, r); rot(L(ax), {}, r); how = "rotation-axis"; break; }
                case 3: { int k = c.rng.below(3); x = k == 0 ? rotation_x(r) : k == 1 ? rotation_y(r) : rotation_z(r); Vec<ld, 3> e; e[k] = 1; rot(e, {}, r); how = "rotation-xyz"; break; }
                default: { V u = unitv<T, 3>(c), w; std::string k; V y = related<T, 3>(c, u, k); w = y / y.mag(); x = direction_align(u, w); how = "align-" + k;
                    NEARV(x * u, w, 40 * (ld)std::numeric_limits<T>::epsilon(), "align-maps"); { SimpleMatrix<T, 3, 3> m3 = rotmat_direction_align(u, w), m4; rotmat_direction_align(&m4, u, w); bool same = true; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) same = same && std::abs(m3(a, b) - x.mat(a, b)) <= 8 * std::numeric_limits<T>::epsilon() && std::abs(m4(a, b) - x.mat(a, b)) <= 8 * std::numeric_limits<T>::epsilon(); c.check(same, "align-forms"); }
                    Vec<ld, 3> ca = lcross(L(u), L(w)); if (k == "general" && lmag<3>(ca) > 1e-3) { rot(ca, {}, atan2l(lmag<3>(ca), ldot<3>(L(u), L(w)))); for (auto& q : ref.am) for (auto& z : q) z *= 8; for (auto& q : ref.ai) for (auto& z : q) z *= 8; how = "align-general"; }
                    else { // which half turn is free: require an orthonormal, orientation-preserving matrix, then trust it
                        ld e = 60 * (ld)std::numeric_limits<T>::epsilon(); bool ok = true; Vec<ld, 3> cl[3]; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { cl[b][a] = x.mat(a, b); ok = ok && x.inv(b, a) == x.mat(a, b); } for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) ok = ok && fabsl(ldot<3>(cl[a], cl[b]) - (a == b)) <= e; c.check(ok && fabsl(ldot<3>(lcross(cl[0], cl[1]), cl[2]) - 1) <= 3 * e, "align-is-rotation", [&](auto& o) { o << sv(u) << " to " << sv(w); }); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { ref.m[a][b] = x.mat(a, b); ref.i[a][b] = x.inv(a, b); } ref.finish(); for (auto& q : ref.am) for (auto& z : q) z = std::max<ld>(z, 1); for (auto& q : ref.ai) for (auto& z : q) z = std::max<ld>(z, 1); }
                } } return x; }
            return x;
    }
}
template <class T, index_t N> void affine(Ctx& c) {
    typedef Vec<T, N> V; typedef AffineTransform<T, N> X; X x; Ref<N> r; int n = c.rng.below(6); u64 h = N; const ld E = std::numeric_limits<T>::epsilon();
    c.check(agrees(c, x, r, "identity"), "identity-matrix");
    for (int i = 0; i < n; ++i) {
        Ref<N> er; std::string how; X e = elementary<T, N>(c, er, how); agrees(c, e, er, how.c_str()); c.cover(how); c.note += " " + how;
        X keep = e; int form = c.rng.below(8); if (form == 5 || form == 6 || form == 7) { X inv = e.inverse(); c.check(inv.mat == e.inv && inv.inv == e.mat, "inverse-swaps"); e = inv; }
        static const char* F[] = {"*=", "apply", "e*x", "inverse-in-place", "*=self", "/=", "apply_inverse", "x/e"};
        switch (form) { case 0: { X& y = (x *= e); c.check(&y == &x, "*=returns"); r = r.then(er); break; } case 1: x = x.apply(e); r = r.then(er); break; case 2: x = e * x; r = r.then(er); break; case 3: x = (e * x).inverse(); r = r.then(er).inverse(); break; case 4: if (r.ops < 3) { x *= x; r = r.then(r); } else { x *= e; r = r.then(er); } break; case 5: x /= e; r = r.then(er); break; case 6: x = x.apply_inverse(e); r = r.then(er); break; case 7: x = x / e; r = r.then(er); break; }
        c.note += std::string(":") + F[form]; c.cover(std::string("form-") + F[form]); h = hcomb(h, hval(x.mat(0, N)) ^ hval(x.mat(0, 0)) * 3); if (!agrees(c, x, r, F[form])) return;
    }
    V p = rdir<T, N>(c), v = rdir<T, N>(c), nn = rdir<T, N>(c); std::array<ld, N + 1> P, A, D, B; for (int k = 0; k < N; ++k) { P[k] = p[k]; A[k] = fabsl(P[k]); D[k] = v[k]; B[k] = fabsl(D[k]); } P[N] = A[N] = 1; D[N] = B[N] = 0; ld k = E * (20 + 16 * (r.ops + 1));
    auto cmp = [&](const V& g, const typename Ref<N>::M& m, const typename Ref<N>::M& am, auto& pt, auto& ap, const char* w) { bool ok = true; for (int q = 0; q < N; ++q) ok = ok && fabsl(g[q] - Ref<N>::tr(m, pt, q)) <= k * Ref<N>::tr(am, ap, q); c.check(ok, w, [&](auto& o) { o << sv(g); }); };
    cmp(x.apply(p), r.m, r.am, P, A, "apply"); cmp(x * p, r.m, r.am, P, A, "x*p"); cmp(x.apply_vector(v), r.m, r.am, D, B, "apply-vector"); cmp(x.apply_inverse(p), r.i, r.ai, P, A, "apply-inverse"); cmp(p / x, r.i, r.ai, P, A, "p/x"); cmp(x.apply_inverse_vector(v), r.i, r.ai, D, B, "apply-inverse-vector");
    { Ray<T, N> ry(p, v), f = x * ry, b = ry / x; cmp(f.origin, r.m, r.am, P, A, "ray-origin"); cmp(f.direction, r.m, r.am, D, B, "ray-direction"); cmp(b.origin, r.i, r.ai, P, A, "ray-inverse-origin"); cmp(b.direction, r.i, r.ai, D, B, "ray-inverse-direction"); T s = c.rng.uniform(-2, 2); std::array<ld, N + 1> S, SA; for (int q = 0; q < N; ++q) { S[q] = p[q] + (ld)s * v[q]; SA[q] = fabsl(p[q]) + fabsl((ld)s * v[q]); } S[N] = SA[N] = 1; cmp(f * s, r.m, r.am, S, SA, "ray-points-map-along"); }
    // normals go by the transposed inverse, and stay normal to the surface
    { typename Ref<N>::M t{}, at{}, t2{}, at2{}; for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { t[a][b] = r.i[b][a]; at[a][b] = r.ai[b][a]; t2[a][b] = r.m[b][a]; at2[a][b] = r.am[b][a]; } std::array<ld, N + 1> Q{}, QA{}; for (int q = 0; q < N; ++q) { Q[q] = nn[q]; QA[q] = fabsl(Q[q]); } cmp(x.apply_normal(nn), t, at, Q, QA, "apply-normal"); cmp(x.apply_inverse_normal(nn), t2, at2, Q, QA, "apply-inverse-normal"); V fn = x.apply_normal(nn), fv = x.apply_vector(v); ld want = ldot<N>(L(nn), L(v)), tol = 0; for (int q = 0; q < N; ++q) tol += Ref<N>::tr(at, QA, q) * Ref<N>::tr(r.am, B, q); c.check(fabsl(ldot<N>(L(fn), L(fv)) - want) <= 2 * k * tol, "normal-vector-product"); }
    { auto d = x.direction_matrix(); bool ok = true; for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) ok = ok && d(a, b) == x.mat(a, b); c.check(ok, "direction-matrix"); X y = x; c.check(y == x, "equal"); y.mat(c.rng.below(N), c.rng.below(N + 1)) += 1; c.check(!(y == x), "unequal"); }
    { auto f = (AffineTransform<float, N>)x; auto d = (AffineTransform<double, N>)x; bool ok = true; for (int a = 0; a <= N; ++a) for (int b = 0; b <= N; ++b) ok = ok && f.mat(a, b) == (float)x.mat(a, b) && f.inv(a, b) == (float)x.inv(a, b) && d.mat(a, b) == (double)x.mat(a, b) && d.inv(a, b) == (double)x.inv(a, b); c.check(ok, "cast"); }
    // a transform grown by a dimension acts the same on the old coordinates, leaves the new one alone, and shrinks back
    { auto u = x.template resized<N + 1>(); Vec<T, N + 1> q(p, (T)c.rng.range(-9, 9)), g = u * q, gi = q / u; cmp(g.template resized<N>(), r.m, r.am, P, A, "grown-apply"); cmp(gi.template resized<N>(), r.i, r.ai, P, A, "grown-inverse"); c.check(g[N] == q[N] && gi[N] == q[N], "grown-keeps-new-coordinate"); auto b = u.template resized<N>(); c.check(b == x && b.inv == x.inv, "grown-and-shrunk"); auto z = x.template resized<N, double>(); bool ok = true; for (int a = 0; a <= N; ++a) for (int e = 0; e <= N; ++e) ok = ok && z.mat(a, e) == (double)x.mat(a, e) && z.inv(a, e) == (double)x.inv(a, e); c.check(ok, "resized-same"); }
    c.cover("transforms"); c.cover("length-" + std::to_string(n)); if (n) c.nontrivial(h);
}
