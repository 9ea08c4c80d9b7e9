#pragma once
#include "geo.h"
#include <geomc/shape/Rect.h>
// A Rect is compared with the set of lattice points it contains, found by enumeration. Real-valued boxes use a
// half-integer lattice that contains all their corners, so every statement about overlap is still decided by points.
template <class T, index_t N> struct Lat {
    typedef Rect<T, N> R; typedef typename R::point_t P; typedef std::array<int, N> I;
    static constexpr bool integral = std::is_integral_v<T>; static constexpr int W = N >= 3 ? 5 : 8; // lattice half-width, in steps
    static T val(int k) { if constexpr (integral) return (T)k; else return (T)(k * .5); }
    static T& at(P& p, int i) { return PointType<T, N>::iterator(p)[i]; }
    static T at(const P& p, int i) { return PointType<T, N>::iterator(p)[i]; }
    static P point(const I& k) { P p; for (int i = 0; i < N; ++i) at(p, i) = val(k[i]); return p; }
    template <class F> static void each(F f, int w = W) { I k; k.fill(-w); for (;;) { f(k); int i = 0; while (i < N && ++k[i] > w) k[i++] = -w; if (i == N) return; } }
    struct Box { I lo, hi; bool in(const I& k) const { for (int i = 0; i < N; ++i) if (k[i] < lo[i] || k[i] > hi[i]) return false; return true; } bool empty() const { for (int i = 0; i < N; ++i) if (lo[i] > hi[i]) return true; return false; } R rect() const { return R(point(lo), point(hi)); } };
    static Box box(Ctx& c, double pempty = .2) { Box b; int w = W - 2; bool e = c.rng.chance(pempty); for (int i = 0; i < N; ++i) { b.lo[i] = c.rng.range(-w, w); b.hi[i] = c.rng.range(-w, w); if (!e && b.lo[i] > b.hi[i]) std::swap(b.lo[i], b.hi[i]); if (c.rng.chance(.1)) b.hi[i] = b.lo[i]; } return b; }
    static std::string s(const R& r) { return str([&](auto& o) { o << "["; for (int i = 0; i < N; ++i) o << (i ? " x " : "") << +at(r.lo, i) << ".." << +at(r.hi, i); o << "]"; }); }
    static std::string s(const P& p) { return str([&](auto& o) { o << "("; for (int i = 0; i < N; ++i) o << (i ? ", " : "") << +at(p, i); o << ")"; }); }
    // does r contain exactly the lattice points that satisfy f?
    template <class F> static bool same_points(Ctx& c, const R& r, F f, const char* what, const std::string& ctx) { bool ok = true; I bad{}; bool got = false; each([&](const I& k) { bool g = r.contains(point(k)), w = f(k); if (g != w && ok) { ok = false; bad = k; got = g; } }); return c.check(ok, what, [&](auto& o) { o << ctx << " -> " << s(r) << (got ? " contains " : " does not contain ") << s(point(bad)); }); }
};
template <class T, index_t N> void algebra(Ctx& c) {
    typedef Lat<T, N> X; typedef typename X::R R; typedef typename X::P P; typedef typename X::I I; constexpr bool INT = X::integral;
    auto A = X::box(c), B = X::box(c); if (c.rng.chance(.15)) B = A; if (c.rng.chance(.15)) for (int i = 0; i < N; ++i) if (c.rng.coin()) { B.lo[i] = A.hi[i]; B.hi[i] = B.lo[i] + (int)c.rng.below(3); }
    const R a = A.rect(), b = B.rect(); std::string ctx = X::s(a) + " " + X::s(b); c.note = ctx; c.nontrivial(hstr(ctx.c_str())); bool ea = A.empty(), eb = B.empty();
    c.cover(ea ? "empty-operand" : "nonempty-operand"); I K; for (auto& k : K) k = (int)c.rng.range(-X::W, X::W); P p = X::point(K);
    X::same_points(c, a, [&](const I& k) { return A.in(k); }, "contains-point", ctx);
    c.eq(R::contains(a.lo, a.hi, p), A.in(K), "contains-point-static"); c.eq(a.is_empty(), ea, "is_empty"); c.eq(a == b, A.lo == B.lo && A.hi == B.hi, "equal"); c.eq(a != b, !(a == b), "not-equal");
    { R r = a & b, q = a; q &= b; c.check(q == r, "&=-same"); X::same_points(c, r, [&](const I& k) { return A.in(k) && B.in(k); }, "intersection", ctx); }
    bool meet = false, sub = true; X::each([&](const I& k) { bool x = A.in(k), y = B.in(k); meet |= x && y; sub &= !y || x; });
    c.check(a.intersects(b) == meet, "intersects", [&](auto& o) { o << ctx << (meet ? " share a point" : " share no point"); }); c.check(b.intersects(a) == meet, "intersects-symmetric", [&](auto& o) { o << ctx; }); c.check(a.contains(b) == sub, "contains-rect", [&](auto& o) { o << ctx << (sub ? " is a subset" : " is not a subset"); }); c.cover(meet ? "overlapping" : "disjoint"); if (sub) c.cover("subset");
    { R r = a | b, q = a; q |= b; c.check(q == r, "|=-same"); bool cover = true; X::each([&](const I& k) { if ((A.in(k) || B.in(k)) && !r.contains(X::point(k))) cover = false; }); c.check(cover, "union-covers", [&](auto& o) { o << ctx << " -> " << X::s(r); });
      if (!ea && !eb) { bool tight = true; for (int i = 0; i < N; ++i) tight = tight && X::at(r.lo, i) == X::val(std::min(A.lo[i], B.lo[i])) && X::at(r.hi, i) == X::val(std::max(A.hi[i], B.hi[i])); c.check(tight, "union-smallest", [&](auto& o) { o << ctx << " -> " << X::s(r); }); }
      c.check((R() | b) == b && (b | R()) == b && (R::empty | b) == b, "union-with-empty-is-identity"); c.check((R::full & b) == b && R::full.contains(p) && !R::empty.contains(p) && !R().contains(p) && R().is_empty(), "full-and-empty"); }
    if (!ea) { R r = a | p, q = a; q |= p; c.check(q == r, "|=point-same"); bool ok = r.contains(p) && r.contains(a); for (int i = 0; i < N; ++i) ok = ok && X::at(r.lo, i) == X::val(std::min(A.lo[i], K[i])) && X::at(r.hi, i) == X::val(std::max(A.hi[i], K[i])); c.check(ok, "point-union", [&](auto& o) { o << ctx << " " << X::s(p) << " -> " << X::s(r); }); }
    { std::vector<P> pts; R want; int n = c.rng.below(6); for (int j = 0; j < n; ++j) { I k; for (auto& q : k) q = (int)c.rng.range(-X::W, X::W); pts.push_back(X::point(k)); } R r = R::from_point_sequence(pts.begin(), pts.end()); bool ok = n ? true : r.is_empty(); for (auto& q : pts) ok = ok && r.contains(q); if (n) for (int i = 0; i < N; ++i) { T mn = X::at(pts[0], i), mx = mn; for (auto& q : pts) mn = std::min(mn, X::at(q, i)), mx = std::max(mx, X::at(q, i)); ok = ok && X::at(r.lo, i) == mn && X::at(r.hi, i) == mx; } c.check(ok, "from_point_sequence"); }
    // exclusion, axis by axis
    { R keep = a, r = a - b, q = a; q -= b; c.check(a == keep, "exclusion-leaves-operand"); c.check(q == r, "-=-same"); bool inside = true, over = false; X::each([&](const I& k) { P x = X::point(k); if (r.contains(x)) { if (!A.in(k)) inside = false; if (INT && B.in(k)) over = true; } }); c.check(inside && !over, "exclusion-subset-and-disjoint", [&](auto& o) { o << ctx << " -> " << X::s(r); });
      for (int i = 0; i < N; ++i) { T al = X::at(a.lo, i), ah = X::at(a.hi, i), bl = X::at(b.lo, i), bh = X::at(b.hi, i), rl = X::at(r.lo, i), rh = X::at(r.hi, i), e = INT ? 1 : 0; bool ok; const char* kind; if (al > ah) { ok = rl > rh; kind = "empty"; } else if (bl > bh || bl > ah || bh < al) { ok = rl == al && rh == ah; kind = "untouched"; } else if (bl <= al && bh >= ah) { ok = rl > rh; kind = "covered"; } else if (bl > al && bh < ah) { ok = rl > rh; kind = "split"; } else if (bl <= al) { ok = rl == (T)(bh + e) && rh == ah; kind = "cut-low"; } else { ok = rl == al && rh == (T)(bl - e); kind = "cut-high"; } c.cover(std::string("exclude-") + kind); c.check(ok, "exclusion-axis", [&](auto& o) { o << kind << " " << ctx << " -> " << X::s(r); }); } }
    // translation and scale
    { I D; for (auto& k : D) k = (int)c.rng.range(-3, 3); P d = X::point(D); R r = a + d, q = a; q += d; R m = r - d, w = r; w -= d; c.check(q == r && w == a && m == a, "translation-forms"); bool ok = true; X::each([&](const I& k) { I j = k; for (int i = 0; i < N; ++i) j[i] += D[i]; ok = ok && r.contains(X::point(j)) == A.in(k); }); c.check(ok, "translation", [&](auto& o) { o << ctx << " + " << X::s(d) << " -> " << X::s(r); }); R dl = a.dilated(d); bool okd = true; for (int i = 0; i < N; ++i) okd = okd && X::at(dl.lo, i) == X::at(a.lo, i) - X::at(d, i) && X::at(dl.hi, i) == X::at(a.hi, i) + X::at(d, i); c.check(okd, "dilated"); }
    if (!ea) { P s; for (int i = 0; i < N; ++i) X::at(s, i) = (T)(int)c.rng.range(-3, 3); R r = a * s, q = a; q *= s; c.check(q == r, "*=-same"); bool ok = true; P lo, hi; for (int i = 0; i < N; ++i) { T u = X::at(a.lo, i) * X::at(s, i), v = X::at(a.hi, i) * X::at(s, i); X::at(lo, i) = std::min(u, v); X::at(hi, i) = std::max(u, v); } X::each([&](const I& k) { if (!A.in(k)) return; P x = X::point(k); for (int i = 0; i < N; ++i) X::at(x, i) *= X::at(s, i); ok = ok && r.contains(x); }); c.check(ok && r == R(lo, hi), "scale", [&](auto& o) { o << ctx << " * " << X::s(s) << " -> " << X::s(r); }); bool z = false; for (int i = 0; i < N; ++i) z |= X::at(s, i) == 0; if (!z) { R back = r / s, w = r; w /= s; c.check(w == back, "/=-same"); if (INT) c.check(back == a, "scale-and-back"); else { bool n = true; for (int i = 0; i < N; ++i) n = n && std::abs(X::at(back.lo, i) - X::at(a.lo, i)) <= 1e-5 && std::abs(X::at(back.hi, i) - X::at(a.hi, i)) <= 1e-5; c.check(n, "scale-and-back"); } } }
    { R r = a.minkowski_sum(b); bool ok = true; if (!ea && !eb) { for (int i = 0; i < N; ++i) ok = ok && X::at(r.lo, i) == X::val(A.lo[i] + B.lo[i]) && X::at(r.hi, i) == X::val(A.hi[i] + B.hi[i]); c.check(ok, "minkowski"); } }
    // nearest point
    if (!ea) { P q = a.clip(p); bool in = a.contains(q), fix = a.clip(q) == q, same = !A.in(K) || q == p; ld best = 1e30; X::each([&](const I& k) { if (!A.in(k)) return; ld d = 0; for (int i = 0; i < N; ++i) { ld t = (ld)X::val(k[i]) - X::at(p, i); d += t * t; } best = std::min(best, d); }); ld d = 0; for (int i = 0; i < N; ++i) { ld t = (ld)X::at(q, i) - X::at(p, i); d += t * t; } c.check(in && fix && same && d == best, "clip-nearest", [&](auto& o) { o << ctx << " " << X::s(p) << " -> " << X::s(q); }); c.eq((ld)a.dist2(p), best, "dist2");
        P dir; for (int i = 0; i < N; ++i) X::at(dir, i) = (T)(int)c.rng.range(-3, 3); P sp = a.convex_support(dir); ld got = 0, top = -1e30; for (int i = 0; i < N; ++i) got += (ld)X::at(sp, i) * X::at(dir, i); X::each([&](const I& k) { if (!A.in(k)) return; ld s = 0; for (int i = 0; i < N; ++i) s += (ld)X::val(k[i]) * X::at(dir, i); top = std::max(top, s); }); c.check(a.contains(sp) && got == top, "support", [&](auto& o) { o << ctx << " toward " << X::s(dir) << " -> " << X::s(sp); }); c.check(a.bounds() == a, "bounds"); }
    // size and position
    if (!ea) { ld vol = 1; long cnt = 0; bool ok = true; P dm = a.dimensions(); for (int i = 0; i < N; ++i) { ld w = (ld)X::val(A.hi[i]) - X::val(A.lo[i]) + (INT ? 1 : 0); vol *= w; ok = ok && X::at(dm, i) == w; } X::each([&](const I& k) { cnt += A.in(k); }); c.check(ok, "dimensions"); c.eq((ld)a.volume(), vol, "volume"); if (INT) c.eq((ld)a.volume(), (ld)cnt, "volume-counts-points"); c.check(std::abs(pow((double)a.length(), N) - (double)vol) <= 1e-4 * (1 + (double)vol), "length");
        P ct = a.center(); R again = R::from_center(ct, dm), mv = a.centered_on(p); c.check(a.contains(ct) && again == a, "from_center-of-own-center", [&](auto& o) { o << ctx << " center " << X::s(ct) << " -> " << X::s(again); }); bool okm = mv.dimensions() == dm && mv.center() == p; c.check(okm, "centered_on", [&](auto& o) { o << ctx << " on " << X::s(p) << " -> " << X::s(mv); });
        bool mid = true; for (int i = 0; i < N; ++i) { ld m2 = (ld)X::at(a.lo, i) + X::at(a.hi, i), x = X::at(ct, i); mid = mid && (INT ? (2 * x == m2 || 2 * x == m2 + 1) : 2 * x == m2); } c.check(mid, "center-is-middle", [&](auto& o) { o << ctx << " center " << X::s(ct); }); }
    else c.eq((ld)a.volume(), (ld)0, "volume-of-empty");
    { P dm; for (int i = 0; i < N; ++i) { X::at(dm, i) = (T)(int)c.rng.range(INT ? 1 : 0, 7); if (INT ? X::at(dm, i) != 1 : true) if (c.rng.chance(.3)) X::at(dm, i) = -X::at(dm, i); } R r = R::from_corner(p, dm), q = R::from_center(p, dm); bool ok = r.contains(p), okc = q.contains(p); P rd = r.dimensions(), qd = q.dimensions(); for (int i = 0; i < N; ++i) { T w = X::at(dm, i) < 0 ? -X::at(dm, i) : X::at(dm, i); ok = ok && X::at(rd, i) == w && (X::at(dm, i) < 0 ? X::at(r.hi, i) : X::at(r.lo, i)) == X::at(p, i); okc = okc && X::at(qd, i) == w; } c.check(ok, "from_corner", [&](auto& o) { o << X::s(p) << " size " << X::s(dm) << " -> " << X::s(r); }); c.check(okc && q.center() == p, "from_center", [&](auto& o) { o << X::s(p) << " size " << X::s(dm) << " -> " << X::s(q); }); R z = R::from_size(dm); c.check(z == R::from_center(P((T)0), dm), "from_size");
      if (!ea) { R g = a; g.set_dimensions(dm); bool oks = true; P gd = g.dimensions(), g0 = a.center(), g1 = g.center(); for (int i = 0; i < N; ++i) { T w = X::at(dm, i) < 0 ? -X::at(dm, i) : X::at(dm, i); oks = oks && X::at(gd, i) == w && X::at(g0, i) == X::at(g1, i); } c.check(oks, "set_dimensions", [&](auto& o) { o << X::s(a) << " to " << X::s(dm) << " -> " << X::s(g); }); } }
    { R r = R::spanning_corners(a.lo, a.hi), q = a.abs(), w; w.set_corners(a.hi, a.lo); bool ok = r == q && r == w && !r.is_empty(); for (int i = 0; i < N; ++i) ok = ok && X::at(r.lo, i) == X::val(std::min(A.lo[i], A.hi[i])) && X::at(r.hi, i) == X::val(std::max(A.lo[i], A.hi[i])); c.check(ok, "corners", [&](auto& o) { o << X::s(a) << " -> " << X::s(r) << " " << X::s(q) << " " << X::s(w); }); R one(p); c.check(one.contains(p) && one.lo == p && one.hi == p, "single-point"); }
    // dimension changes
    { for (int i = 0; i < N; ++i) { Rect<T, 1> x = a.axis(i), y = a(i); c.check(x.lo == X::at(a.lo, i) && x.hi == X::at(a.hi, i) && x == y, "axis"); } auto pr = a * b; bool ok = true; for (int i = 0; i < N; ++i) ok = ok && pr.lo[i] == X::at(a.lo, i) && pr.hi[i] == X::at(a.hi, i) && pr.lo[N + i] == X::at(b.lo, i) && pr.hi[N + i] == X::at(b.hi, i); c.check(ok, "product"); int i = c.rng.below(2 * N), j = c.rng.below(2 * N), k = c.rng.below(2 * N); Rect<T, 3> sl = pr(i, j, k); Rect<T, 2> s2 = pr(k, i); c.check(sl.lo[0] == pr.lo[i] && sl.hi[1] == pr.hi[j] && sl.lo[2] == pr.lo[k] && sl.hi[2] == pr.hi[k] && s2.lo[0] == pr.lo[k] && s2.hi[1] == pr.hi[i], "slice"); c.check(hash<R, size_t>(a) == hash<R, size_t>(R(a.lo, a.hi)), "hash");
      Rect<double, N> dd = a; bool okd = true; for (int q = 0; q < N; ++q) okd = okd && PointType<double, N>::iterator(dd.lo)[q] == X::at(a.lo, q) && PointType<double, N>::iterator(dd.hi)[q] == X::at(a.hi, q); c.check(okd, "cast"); }
    if constexpr (!INT) if (!ea) {
        const ld E = 16 * (ld)std::numeric_limits<T>::epsilon(); P s, zero((T)0), one((T)1); for (int i = 0; i < N; ++i) X::at(s, i) = c.rng.chance(.2) ? (T)c.rng.below(2) : (T)c.rng.uniform(-.5, 1.5); P q = a.remap(s); bool ok = a.remap(zero) == a.lo && a.remap(one) == a.hi, flat = false, rt = true, unit = true; for (int i = 0; i < N; ++i) { ld l = X::at(a.lo, i), h = X::at(a.hi, i), w = l + (h - l) * X::at(s, i); ok = ok && fabsl(X::at(q, i) - w) <= E * (fabsl(l) + fabsl(h)) * 2; flat |= l == h; unit = unit && X::at(s, i) >= 0 && X::at(s, i) <= 1; } c.check(ok, "remap"); if (!flat) { P u = a.unmap(q); for (int i = 0; i < N; ++i) rt = rt && fabsl(X::at(u, i) - X::at(s, i)) <= E * 20 * (1 + X::W); c.check(rt, "unmap-inverts-remap"); } c.check(R::unit_interval.contains(s) == unit && R::signed_unit_interval == R(P((T)-1), P((T)1)), "unit-intervals");
        if (!eb) { auto cv = a.contact_vector(b); P v = cv.first; R m = a + v; bool touch = m.intersects(b), sep = false; ld mag = 0, pen = 1e30, gap = 0; for (int i = 0; i < N; ++i) { sep |= X::at(m.hi, i) == X::at(b.lo, i) || X::at(m.lo, i) == X::at(b.hi, i); mag += (ld)X::at(v, i) * X::at(v, i); ld u = (ld)X::at(b.hi, i) - X::at(a.lo, i), w = (ld)X::at(a.hi, i) - X::at(b.lo, i); pen = std::min({pen, fabsl(u), fabsl(w)}); ld g = std::max<ld>({0, -u, -w}); gap += g * g; } c.check(touch && sep, "contact-is-contact", [&](auto& o) { o << ctx << " by " << X::s(v) << " -> " << X::s(m); }); c.check(fabsl(sqrtl(mag) - (meet ? pen : sqrtl(gap))) <= 1e-5, "contact-is-shortest", [&](auto& o) { o << ctx << " by " << X::s(v); }); bool interior = true; for (int i = 0; i < N; ++i) interior = interior && A.lo[i] < B.hi[i] && B.lo[i] < A.hi[i]; if (interior || !meet) c.eq(cv.second, meet, "contact-overlap-flag"); c.cover(meet ? "contact-overlap" : "contact-apart"); 
            R g = a; bool signs = c.rng.chance(.3); if (signs) for (int i = 0; i < N; ++i) if (c.rng.coin()) std::swap(X::at(g.lo, i), X::at(g.hi, i)); R f = g.fitted_to(b); bool anyd = false; ld ratio = -1; bool aspect = true, covers = true, snug = false, ctr = true; for (int i = 0; i < N; ++i) { ld d0 = (ld)X::at(g.hi, i) - X::at(g.lo, i), d1 = (ld)X::at(f.hi, i) - X::at(f.lo, i), db = (ld)X::at(b.hi, i) - X::at(b.lo, i); ctr = ctr && fabsl((ld)X::at(f.hi, i) + X::at(f.lo, i) - X::at(b.hi, i) - X::at(b.lo, i)) <= 1e-4; if (d0 == 0) { aspect = aspect && d1 == 0; continue; } anyd = true; ld q = d1 / d0; if (ratio < 0) ratio = q; aspect = aspect && q >= -1e-6 && fabsl(q - ratio) <= 1e-4 * (1 + ratio); covers = covers && fabsl(d1) >= db - 1e-4; snug |= fabsl(fabsl(d1) - db) <= 1e-4; } if (anyd) { c.check(aspect && covers && snug && ctr, "fitted_to", [&](auto& o) { o << X::s(g) << " to " << X::s(b) << " -> " << X::s(f); }); c.cover("fitted"); } }
    }
}
