#include "m.h"
// points that lie exactly on the surface of lattice shapes, and points one lattice unit beyond it
template <class T, index_t N> Vec<T, N> iv(Ctx& c, int k) { Vec<T, N> v; for (int i = 0; i < N; ++i) v[i] = c.rng.range(-k, k); return v; }
template <class S, class V> void on(Ctx& c, const S& s, const V& p, const V& out, const char* what) { c.check(s.contains(p), what, [&](auto& o) { o << sv(p); }); c.check(!s.contains(p + out), what, [&](auto& o) { o << "beyond: " << sv(p + out); }); c.cover(what); }
template <class T, index_t N> Vec<T, N> spoke(Ctx& c, T& r) { // an integer vector of integer length
    static const int q[5][5] = {{3, 4, 0, 0, 5}, {1, 2, 2, 0, 3}, {2, 3, 6, 0, 7}, {1, 1, 1, 1, 2}, {1, 0, 0, 0, 1}}; int k; do k = c.rng.below(5); while (N == 2 && (k == 1 || k == 2 || k == 3) || N == 3 && k == 3); int m = c.rng.range(1, 3); Vec<T, N> v; int pos[N]; for (int i = 0; i < N; ++i) pos[i] = i; for (int i = N - 1; i > 0; --i) std::swap(pos[i], pos[c.rng.below(i + 1)]); for (int i = 0; i < std::min<int>(N, 4); ++i) v[pos[i]] = q[k][i] * m * (c.rng.coin() ? 1 : -1); r = q[k][4] * m; return v; }
template <class T, index_t N> void exact(Ctx& c) {
    typedef Vec<T, N> V; T r, r2; V ctr = iv<T, N>(c, 6), v = spoke<T, N>(c, r), tiny; c.note = sv(ctr) + " " + sv(v);
    auto outw = [&](V d) { V o; for (int i = 0; i < N; ++i) o[i] = d[i] > 0 ? 1 : d[i] < 0 ? -1 : 0; return o; };
    on(c, Sphere<T, N>(ctr, r), ctr + v, outw(v), "sphere-boundary"); on(c, Capsule<T, N>(ctr, ctr + v, 2 * r), ctr - v * (T)2, -outw(v), "capsule-tip");
    // cylinder along an axis or a lattice direction
    V a = c.rng.coin() ? v : V(), e; if (a.is_zero()) a[c.rng.below(N)] = c.rng.coin() ? 4 : -2; Cylinder<T, N> cy(ctr, ctr + a, 5); on(c, cy, ctr, -outw(a), "cylinder-near-cap"); on(c, cy, ctr + a, outw(a), "cylinder-far-cap");
    { V ax; int k = c.rng.below(N); ax[k] = c.rng.coin() ? 2 : -4; V w; int j = (k + 1 + c.rng.below(N - 1)) % N; w[j] = 5; V ow; ow[j] = 1; Cylinder<T, N> z(ctr, ctr + ax, 5); T f = c.rng.range(0, 4) * (T).25; on(c, z, ctr + ax * f + w, ow, "cylinder-wall"); on(c, z, ctr + ax + w, ow, "cylinder-rim"); Capsule<T, N> q(ctr, ctr + ax, 5); on(c, q, ctr + ax * f + w, ow, "capsule-wall"); }
    { V lo = ctr, hi = lo; for (int i = 0; i < N; ++i) hi[i] += c.rng.range(1, 4); Rect<T, N> b(lo, hi); int k = c.rng.below(N); V p = lo, o; for (int i = 0; i < N; ++i) p[i] = c.rng.range((long)lo[i], (long)hi[i]); bool up = c.rng.coin(); p[k] = up ? hi[k] : lo[k]; o[k] = up ? 1 : -1; on(c, b, p, o, "rect-face"); V p2 = p; p2[k] += o[k] * 2; on(c, Dilated<Rect<T, N>>(b, 2), p2, o, "dilated-face"); on(c, dilate(b, (T)2), p2, o, "dilate-function");
      Vec<T, N + 1> p3(p, 7), o3; o3[N] = 1; on(c, Extruded<Rect<T, N>>(b, -3, 7), p3, o3, "extruded-cap"); p3[N] = -3; o3[N] = -1; on(c, extrude(b, 7, -3), p3, o3, "extruded-floor"); p3[N] = c.rng.range(-3, 7); on(c, extrude(b, -3, 7), p3, Vec<T, N + 1>(o, 0), "extruded-wall");
      T h = c.rng.coin() ? 4 : 2; Vec<T, N + 1> f(p * h, h), fo; fo[N] = 1; on(c, Frustum<Rect<T, N>>(b, 1, h), f, fo, "frustum-cap"); fo[N] = 0; for (int i = 0; i < N; ++i) fo[i] = o[i]; on(c, frustum(b, h, 0), f, fo, "frustum-wall"); Vec<T, N + 1> zero, down; down[N] = -1; on(c, Frustum<Rect<T, N>>(b, -4, h), zero, down, "frustum-tip-spanning"); on(c, Frustum<Rect<T, N>>(b, -4, 0), zero, -down, "frustum-tip-below"); Vec<T, N + 1> side; side[c.rng.below(N)] = 1; on(c, Frustum<Rect<T, N>>(b, 0, h), zero, side, "frustum-tip-side"); c.check(!Frustum<Rect<T, N>>(b, -4, h).contains(Vec<T, N + 1>(p * -1, -1)), "frustum-lost-part"); on(c, Frustum<Rect<T, N>>(b, -4, -1), Vec<T, N + 1>(p * -2, -2), Vec<T, N + 1>(-o, 0), "frustum-below-wall");
      Vec<T, N> t = iv<T, N>(c, 5), sc; for (int i = 0; i < N; ++i) sc[i] = c.rng.coin() ? 2 : -.5; auto x = translation(t) * scale(sc); V wp = p * sc + t, wo; wo[k] = o[k] * (sc[k] < 0 ? -1 : 1); on(c, x * b, wp, wo, "oriented-face"); on(c, Oriented<Dilated<Rect<T, N>>>(Dilated<Rect<T, N>>(b, 2), x), (p + o * (T)2) * sc + t, wo, "oriented-dilated-face"); }
    { Simplex<T, N> s; V o; s.insert(o); T leg = c.rng.coin() ? 2 : 4; for (int i = 0; i < N; ++i) { V q = o; q[i] += leg; s.insert(q); } V p = o; int k = c.rng.below(N); p[k] += leg; V w; w[k] = 1; on(c, s, p, w, "simplex-vertex"); on(c, s, o, -w, "simplex-corner"); p[k] -= leg / 2; p[(k + 1) % N] += leg / 2; on(c, s, p, w, "simplex-edge"); Simplex<T, N> part; for (int i = 0; i < N; ++i) part.insert(s.pts[i]); c.check(!part.contains(o), "partial-simplex-has-no-volume"); Simplex<T, N> dg = s; dg.pts[N] = dg.pts[0]; c.check(!dg.contains(iv<T, N>(c, 3)), "degenerate-simplex-empty"); }
    // default constructed and convenience shapes
    V z; { V q; q[c.rng.below(N)] = c.rng.coin() ? 1 : -1; on(c, Sphere<T, N>(), q, q, "default-sphere"); } { Cylinder<T, N> d; V x; x[0] = 1; V y; y[1] = 1; on(c, d, x + y, y, "default-cylinder"); on(c, d, V(), -x, "default-cylinder-floor"); Capsule<T, N> k; on(c, k, x * (T)2, x, "default-capsule"); }
    { Dilated<Sphere<T, N>> d; V x; x[0] = 1; on(c, d, x, x, "default-dilated"); auto g = dilate(Sphere<T, N>(ctr, r), (T)2); c.check(g.r == r + 2 && g.center == ctr, "dilate-sphere"); auto n = dilate(Sphere<T, N>(ctr, r), -r - 1); c.check(n.r == 0, "dilate-sphere-below-zero"); auto q = dilate(Dilated<Rect<T, N>>(Rect<T, N>(), 2), (T)3); c.check(q.dilation == 5, "dilate-again"); }
    c.cover("exact"); c.nontrivial(hcomb(hv(ctr), hv(v)));
}
TSUITE("exact/2d", 20000, 200000, (exact<double, 2>))
TSUITE("exact/3f", 20000, 200000, (exact<float, 3>))
TSUITE("exact/4d", 20000, 200000, (exact<double, 4>))
template <class T, index_t N> void rounded(Ctx& c) {
    RP b; Rect<T, N> s = Gen<Rect<T, N>>::make(c, b); T rad = (T)rsize(c); auto rr = roundrect(s, rad); RBox* bx = (RBox*)b.get(); c.note = b->show() + " corner " + std::to_string((double)rad); ld w = b->thin(); bool clamped = rad > w / 2; ld r = clamped ? w / 2 : (ld)rad; LP lo = bx->lo, hi = bx->hi; for (int i = 0; i < N; ++i) { lo[i] += r; hi[i] -= r; } RDil ref(RP(new RBox(lo, hi)), r);
    for (int k = 0; k < 8; ++k) { std::string kind; Vec<T, N> p = probe<T, N>(c, ref, kind); LP q = lp(p); ld d = ref.sdf(q), e = b->extent(); for (auto x : q) e = std::max(e, fabsl(x)); ld tol = 64 * std::numeric_limits<T>::epsilon() * e; if (fabsl(d) <= tol) continue; c.check(rr.contains(p) == (d < 0), "rounded-contains", [&](auto& o) { o << kind << " " << sv(p) << " reference distance " << (double)d; }); }
    auto bb = rr.bounds(); for (int i = 0; i < N; ++i) { ld tol = 8 * std::numeric_limits<T>::epsilon() * b->extent(); c.check(fabsl(bb.lo[i] - bx->lo[i]) <= tol && fabsl(bb.hi[i] - bx->hi[i]) <= tol, "rounded-extents"); }
    c.cover(clamped ? "corner-clamped" : "corner-free"); c.nontrivial(hcomb(hstr(b->show().c_str()), hval(rad)));
}
TSUITE("roundrect/2d", 10000, 100000, (rounded<double, 2>))
TSUITE("roundrect/3f", 10000, 100000, (rounded<float, 3>))
