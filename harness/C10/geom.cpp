#include "geo.h"
template <class T, index_t N> void metric(Ctx& c) {
    typedef Vec<T, N> V; const ld E = std::numeric_limits<T>::epsilon();
    V a = rdir<T, N>(c); std::string kind; V b = related<T, N>(c, a, kind); if (b.is_zero()) b[0] = 1;
    c.note = str([&](auto& o) { o << sv(a) << " " << sv(b); }); Vec<ld, N> A = L(a), B = L(b); ld am = lmag<N>(A), bm = lmag<N>(B), d = ldot<N>(A, B); ld k = 4 * (N + 2) * E;
    { V u = a.unit(); c.check(fabsl(lmag<N>(L(u)) - 1) <= k, "unit-length"); NEARV(u, A / am, k, "unit"); }
    { T len = (T)c.rng.logmag(-2, 2); NEARV(a.with_length(len), A * ((ld)len / am), k * fabsl(len), "with-length"); c.check(V().with_length(len).is_zero(), "zero-with-length"); }
    { NEARV(a.project_on(b), B * (d / (bm * bm)), k * am, "project-on"); V p = a.project_on(b); c.check(fabsl(ldot<N>(A - L(p), B)) <= k * am * bm, "projection-residual"); c.check(a.project_on(V()).is_zero(), "project-on-zero"); c.check(fabsl(a.fraction_on(b) - d / (bm * bm)) <= k * am / bm, "fraction-on"); }
    { Vec<ld, N> r = B * (2 * d / (bm * bm)) - A; NEARV(a.reflect_about(b), r, k * am, "reflect-about"); NEARV(a.bounce_on(b), -r, k * am, "bounce-on"); V t = a.reflect_about(b).reflect_about(b); NEARV(t, a, 2 * k * am, "reflect-twice"); }
    { Vec<ld, N> ua = A / am, ub = B / bm; ld s = lmag<N>(ua - ub), t = lmag<N>(ua + ub); ld ang = 2 * atan2l(s, t); T g = a.angle_to(b);
      // acos of a rounded cosine is good to sqrt(eps) near its ends
      ld tol = std::min<ld>(8 * sqrtl(N * E), 16 * N * E / std::max<ld>(sinl(ang), 1e-30L) + 16 * E); c.check(g >= 0 && g <= PIL * (1 + 2 * E) && fabsl(g - ang) <= tol, "angle-to", [&](auto& o) { o << g << " want " << ang; }); }
    c.cover("pair-" + kind); c.nontrivial(hcomb(hv(a), hv(b)));
}
TSUITE("metric-double-2", 20000, 500000, (metric<double, 2>))
TSUITE("metric-double-3", 20000, 500000, (metric<double, 3>))
TSUITE("metric-double-6", 15000, 500000, (metric<double, 6>))
TSUITE("metric-float-2", 20000, 500000, (metric<float, 2>))
TSUITE("metric-float-4", 20000, 500000, (metric<float, 4>))
template <class T> void plane2(Ctx& c) {
    typedef Vec<T, 2> V; const ld E = std::numeric_limits<T>::epsilon(); V a = rdir<T, 2>(c), o = rdir<T, 2>(c) * (T)(c.rng.coin()); T r = c.rng.chance(.2) ? (T)(c.rng.range(-4, 4) * (PIL / 2)) : (T)c.rng.uniform(-20, 20);
    c.note = str([&](auto& s) { s << sv(a) << " " << sv(o) << " " << r; }); ld cs = cosl(r), sn = sinl(r); Vec<ld, 2> A = L(a), O = L(o), D = A - O; ld am = lmag<2>(A), om = lmag<2>(O);
    NEARV(a.rotated(r), (Vec<ld, 2>(cs * A.x - sn * A.y, sn * A.x + cs * A.y)), 8 * E * am, "rotated"); NEARV(a.rotate(o, r), (O + Vec<ld, 2>(cs * D.x - sn * D.y, sn * D.x + cs * D.y)), 16 * E * (am + om), "rotate-about");
    T an = a.angle(); ld wa = atan2l(a.y, a.x); if (wa < 0) wa += 2 * PIL; c.check(an >= 0 && an <= 2 * PIL * (1 + 2 * E) && (fabsl(an - wa) <= 8 * E * 7 || fabsl(fabsl(an - wa) - 2 * PIL) <= 8 * E * 7), "angle", [&](auto& s) { s << an << " want " << wa; });
    V p = a.to_polar(); c.check(fabsl(p[0] - am) <= 4 * E * am && p[1] == an, "to-polar"); NEARV(p.from_polar(), A, 40 * E * am, "polar-round-trip");
    V q((T)fabs(c.rng.logmag(-2, 2)), r); NEARV(q.from_polar(), (Vec<ld, 2>(q[0] * cs, q[0] * sn)), 8 * E * q[0], "from-polar");
    c.cover("plane"); c.nontrivial(hcomb(hv(a), hval(r)));
}
TSUITE("plane-double", 30000, 500000, (plane2<double>))
TSUITE("plane-float", 30000, 500000, (plane2<float>))
typedef __float128 q128;
template <class T> void space3(Ctx& c) {
    typedef Vec<T, 3> V; const ld E = std::numeric_limits<T>::epsilon(); V a = rdir<T, 3>(c), n = rdir<T, 3>(c), o = rdir<T, 3>(c) * (T)(c.rng.coin()); T r = c.rng.chance(.2) ? (T)(c.rng.range(-4, 4) * (PIL / 2)) : (T)c.rng.uniform(-20, 20); std::string kind; V b = related<T, 3>(c, a, kind); if (b.is_zero()) b[0] = 1;
    c.note = str([&](auto& s) { s << sv(a) << " " << sv(b) << " " << sv(n) << " " << sv(o) << " " << r; }); Vec<ld, 3> A = L(a), B = L(b), Nn = L(n), O = L(o); ld am = lmag<3>(A), bm = lmag<3>(B), om = lmag<3>(O);
    NEARV(a.rotate(n, r), rodrigues(A, Nn, r), 32 * E * am, "rotate"); NEARV(a.rotate(n.x, n.y, n.z, r), rodrigues(A, Nn, r), 32 * E * am, "rotate-uvw");
    NEARV(a.rotate(n, o, r), O + rodrigues(A - O, Nn, r), 48 * E * (am + om), "rotate-about"); NEARV(a.rotate(n.x, n.y, n.z, o.x, o.y, o.z, r), O + rodrigues(A - O, Nn, r), 48 * E * (am + om), "rotate-about-uvw");
    { V g = a.cross(b), g2 = a ^ b; const q128 w[3] = {(q128)a.y * b.z - (q128)a.z * b.y, (q128)a.z * b.x - (q128)a.x * b.z, (q128)a.x * b.y - (q128)a.y * b.x}; bool ok = true; for (int i = 0; i < 3; ++i) { q128 e = g[i] - w[i]; if (e < 0) e = -e; q128 m = w[i] < 0 ? -w[i] : w[i]; ok = ok && (e <= m * (q128)(2 * E) || e < 1e-37Q) && g2[i] == g[i]; } c.check(ok, "cross", [&](auto& s) { s << sv(g); }); c.check(fabsl(ldot<3>(L(g), A)) <= 8 * E * lmag<3>(L(g)) * am + 1e-30L && fabsl(ldot<3>(L(g), B)) <= 8 * E * lmag<3>(L(g)) * bm + 1e-30L, "cross-orthogonal"); c.check(a.cross(a).is_zero(), "cross-self"); }
    { V u = unitv<T, 3>(c), w; std::string k2; { V x = related<T, 3>(c, u, k2); w = x / x.mag(); } V m = u.align(u, w); NEARV(m, w, 40 * E, "align-maps"); V y = a.align(u, w); c.check(fabsl(lmag<3>(L(y)) - am) <= 40 * E * am, "align-length"); V z = b.align(u, w); c.check(fabsl(ldot<3>(L(y), L(z)) - ldot<3>(A, B)) <= 80 * E * am * bm, "align-angles"); V p = n.align(u, w); ld det = ldot<3>(L(y), Vec<ld, 3>(z.y * (ld)p.z - z.z * (ld)p.y, z.z * (ld)p.x - z.x * (ld)p.z, z.x * (ld)p.y - z.y * (ld)p.x)), det0 = ldot<3>(A, Vec<ld, 3>(b.y * (ld)n.z - b.z * (ld)n.y, b.z * (ld)n.x - b.x * (ld)n.z, b.x * (ld)n.y - b.y * (ld)n.x)); c.check(fabsl(det - det0) <= 120 * E * am * bm * lmag<3>(Nn), "align-orientation"); V x = u.cross(w); if (k2 == "general" && x.mag() > 1e-3) NEARV(x.align(u, w), x, 60 * E * x.mag(), "align-keeps-axis"); c.cover("align-" + k2); }
    { V s = a.to_spherical(); ld el = acosl(std::clamp<ld>(A.z / am, -1, 1)), az = atan2l(A.y, A.x); ld te = std::min<ld>(8 * sqrtl(E), 16 * E / std::max<ld>(sinl(el), 1e-30L) + 16 * E); c.check(fabsl(s[0] - am) <= 8 * E * am && fabsl(s[1] - el) <= te && s[1] >= 0 && s[1] <= PIL * (1 + E) && fabsl(s[2] - az) <= 8 * E * (1 + fabsl(az)), "to-spherical", [&](auto& q) { q << sv(s) << " want " << am << " " << el << " " << az; });
      NEARV(V::from_spherical(s[0], s[1], s[2]), A, am * (te + 40 * E), "spherical-round-trip"); T R = (T)fabs(c.rng.logmag(-2, 2)), e = c.rng.coin() ? (T)c.rng.uniform(0, PIL) : (T)c.rng.uniform(-7, 7), z = (T)c.rng.uniform(-PIL, PIL); if (c.rng.chance(.2)) z *= 3; if (e < 0) c.cover("negative-elevations"); NEARV(V::from_spherical(R, e, z), (Vec<ld, 3>(R * sinl(e) * cosl(z), R * sinl(e) * sinl(z), R * cosl(e))), 16 * E * R, "from-spherical"); V o0 = V().to_spherical(); c.check(o0[0] == 0 && o0.is_finite_real() && V::from_spherical(o0[0], o0[1], o0[2]).is_zero(), "origin"); }
    { V p1 = a, p2 = a + rdir<T, 3>(c), p3 = a + rdir<T, 3>(c); Vec<ld, 3> e = L(p2) - L(p1), f = L(p3) - L(p1); Vec<ld, 3> x(e.y * f.z - e.z * f.y, e.z * f.x - e.x * f.z, e.x * f.y - e.y * f.x); ld m = lmag<3>(x); ld cond = (lmag<3>(e) * lmag<3>(f)) / m * (1 + am / lmag<3>(e) + am / lmag<3>(f)); if (cond < 1e3) { NEARV(triangle_normal(p1, p2, p3), x * (1 / m), 16 * E * cond, "triangle-normal"); c.cover("triangles"); } }
    { V t = a; c.check(t.is_finite_real(), "finite"); int k = c.rng.below(3); t[k] = c.rng.coin() ? std::numeric_limits<T>::infinity() * (c.rng.coin() ? 1 : -1) : std::numeric_limits<T>::quiet_NaN(); c.check(!t.is_finite_real(), "not-finite"); Vec<T, 2> u(a.x, a.y); c.check(u.is_finite_real(), "finite-2"); u[c.rng.below(2)] = t[k]; c.check(!u.is_finite_real(), "not-finite-2"); }
    c.cover("space"); c.nontrivial(hcomb(hv(a), hcomb(hv(n), hval(r))));
}
TSUITE("space-double", 40000, 800000, (space3<double>))
TSUITE("space-float", 40000, 800000, (space3<float>))
SUITE("color", 20000, 200000) {
    unsigned v = (unsigned)c.rng.next(); int p[4] = {int(v >> 24), int(v >> 16 & 255), int(v >> 8 & 255), int(v & 255)}; int iv = (int)v; c.note = str([&](auto& o) { o << std::hex << v; });
    auto r3 = from_rgb<double>(iv); auto a4 = from_argb<double>(iv); auto b4 = from_rgba<double>(iv); auto f3 = from_rgb<float>(iv); auto i3 = from_rgb<int>(iv); auto i4 = from_argb<int>(iv); auto u4 = from_rgba<unsigned char>(iv); bool ok = true;
    for (int i = 0; i < 3; ++i) ok = ok && std::abs(r3[i] - p[i + 1] / 255.) < 1e-15 && std::abs(f3[i] - p[i + 1] / 255.f) < 1e-6 && i3[i] == p[i + 1] && i4[i] == p[i + 1] && std::abs(a4[i] - p[i + 1] / 255.) < 1e-15; for (int i = 0; i < 4; ++i) ok = ok && std::abs(b4[i] - p[i] / 255.) < 1e-15 && u4[i] == p[i];
    c.check(ok && i4[3] == p[0] && std::abs(a4[3] - p[0] / 255.) < 1e-15, "unpack");
    double s = c.rng.uniform(-3, 3); auto h = rainbow<double>(s), h1 = rainbow<double>(s + c.rng.range(-3, 3)); double t = s - std::floor(s), e[3] = {std::clamp(std::abs(t * 6 - 3) - 1, 0., 1.), std::clamp(2 - std::abs(t * 6 - 2), 0., 1.), std::clamp(2 - std::abs(t * 6 - 4), 0., 1.)};
    ok = true; for (int i = 0; i < 3; ++i) ok = ok && std::abs(h[i] - e[i]) < 1e-13 && std::abs(h[i] - h1[i]) < 1e-13; c.check(ok, "rainbow", [&](auto& o) { o << s << ": " << sv(h); }); c.cover("color"); c.nontrivial(v);
}
