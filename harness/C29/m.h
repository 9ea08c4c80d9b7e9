#include "shapes.h"
// k vertices spanning a well-conditioned simplex; q is its volume relative to its edges
template <class T, index_t N> Simplex<T, N> gens(Ctx& c, int k, std::vector<LP>& v, ld& q) {
    for (;;) { Simplex<T, N> s; v.clear(); Vec<T, N> o = rpos<T, N>(c); ld size = rsize(c); bool lat = c.rng.chance(.3); for (int i = 0; i < k; ++i) { Vec<T, N> d; for (int j = 0; j < N; ++j) d[j] = lat ? (T)c.rng.range(-3, 3) : (T)(c.rng.gauss() * size); s.insert(o + d); v.push_back(lp(s.pts[i])); }
        q = 1; for (int root = 0; root < k; ++root) { ld w = 1; std::vector<LP> l; for (int i = 0; i < k && w > 0; ++i) if (i != root) { LP d = v[i] - v[root], e = d; for (int r = 0; r < 2; ++r) for (auto& z : l) e = e - z * (dotp(e, z) / dotp(z, z)); ld m = magp(d); w *= m > 0 ? magp(e) / m : 0; l.push_back(e); } q = std::min(q, w); } ld lo = 1e30L, hi = 0; for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) { ld d = magp(v[i] - v[j]); lo = std::min(lo, d); hi = std::max(hi, d); } if (q > .03L && (k < 2 || lo > .1L * hi)) return s; }
}
template <class V> std::string show(const std::vector<LP>& v, const V& p) { std::string s = "simplex"; for (auto& x : v) s += " " + sp(x); return s + " point " + sv(p); }
inline ld gramvol(const std::vector<LP>& v) { ld w = 1; std::vector<LP> l; for (size_t i = 1; i < v.size(); ++i) { LP e = v[i] - v[0]; for (int r = 0; r < 2; ++r) for (auto& z : l) e = e - z * (dotp(e, z) / dotp(z, z)); w *= magp(e) / i; l.push_back(e); } return w; }
inline ld detp(std::vector<LP> g) { int n = g.size(); ld det = 1; for (int k = 0; k < n; ++k) { int p = k; for (int i = k; i < n; ++i) if (fabsl(g[i][k]) > fabsl(g[p][k])) p = i; if (g[p][k] == 0) return 0; if (p != k) { std::swap(g[p], g[k]); det = -det; } det *= g[k][k]; for (int i = k + 1; i < n; ++i) { ld f = g[i][k] / g[k][k]; for (int j = k; j < n; ++j) g[i][j] -= f * g[k][j]; } } return det; }
template <class T, index_t N> void metric(Ctx& c) {
    typedef Vec<T, N> V; typedef Simplex<T, N> S; const ld E = std::numeric_limits<T>::epsilon(); std::vector<LP> v; ld q; int k = c.rng.coin() ? N + 1 : c.rng.range(1, N + 1); S s = gens<T, N>(c, k, v, q); RSim ref(v); bool full = k == N + 1; c.cover(full ? "full" : "flat"); ld ext = ref.extent(), wide = 0; for (auto& x : v) wide = std::max(wide, magp(x - v[0])); if (k == 1) wide = 1;
    for (int m = 0; m < 6; ++m) {
        V p; switch (c.rng.below(full ? 4 : 3)) { case 0: p = tv<T, N>(boxpt(c, ref, 1.5)); break; case 1: { LP w = boxpt(c, ref, 1); for (auto& x : w) x += wide * c.rng.gauss(); p = tv<T, N>(w); break; } case 2: { LP w(N); ld tot = 0; std::vector<ld> b(k); for (auto& x : b) { x = c.rng.chance(.2) ? 0 : -log(c.rng.unit() + 1e-9); tot += x; } if (tot == 0) { b[0] = tot = 1; } for (int i = 0; i < k; ++i) w = w + v[i] * (b[i] / tot); LP d = rdirl(c, N); p = tv<T, N>(w + d * (wide * (ld)pow(10, c.rng.uniform(-4, .5)))); break; } default: p = tv<T, N>(insidept(c, ref)); }
        LP z = lp(p); ld pe = std::max(ext, magp(z)); bool in = full && ref.inside(z); LP near = ref.nearest(z, true); ld dist = magp(near - z), tol = 128 * E * pe / (q * q), far = 1 + dist / wide; c.note = show(v, p); auto what = [&](const V& got, ld want) { return [&, got, want](auto& o) { o.precision(17); o << "got " << sv(got) << " want " << sp(near) << " distance " << (double)want << " tolerance " << (double)tol; }; };
        tol *= far; bool sure = dist > 8 * tol; if (!sure) { c.cover("skipped-near-surface"); continue; } c.cover(in ? "inside" : "outside"); std::vector<int> wh; ref.nearest(z, true, &wh); c.cover("onto-" + std::to_string(wh.size()) + "-vertices"); if (in && q < .2L) { /* two faces may be equally near */ }
        T sd = s.sdf(p); c.check(fabsl((ld)sd - (in ? -dist : dist)) <= tol, "sdf", [&](auto& o) { o.precision(17); o << sd << " want " << (double)(in ? -dist : dist) << " tolerance " << (double)tol; }); c.check(s.contains(p) == in, "contains");
        S face; V j = s.project(p, &face); ld jd = magp(lp(j) - z); LP jj = lp(j); c.check(fabsl(jd - dist) <= tol && (full ? fabsl(ref.sdf(jj)) : magp(ref.nearest(jj, true) - jj)) <= tol, "project", what(j, dist)); if (!in) c.check(magp(jj - near) <= tol, "project-nearest", what(j, dist));
        auto faceok = [&](const S& f, const V& at, const char* name) { bool sub = f.n >= 1 && f.n <= k; std::vector<LP> w; int used = 0; for (int i = 0; sub && i < f.n; ++i) { int hit = -1; for (int a = 0; a < k; ++a) if (!(used >> a & 1) && f.pts[i] == s.pts[a]) { hit = a; break; } if (hit < 0) sub = false; else { used |= 1 << hit; w.push_back(v[hit]); } } LP o, b; ld lowest = 0; if (sub) { RSim::proj(w, z, o, &b); for (auto x : b) lowest = std::min(lowest, x); sub = magp(o - lp(at)) <= 4 * tol && lowest >= -tol / wide * 64; } c.check(sub, name, [&](auto& o) { o << f.n << " vertices"; for (int i = 0; i < f.n; ++i) o << " " << sv(f.pts[i]); o << " lowest coordinate " << (double)lowest; }); };
        faceok(face, j, "project-face"); { V j2 = s.project(p); c.check(j2 == j, "project-forms"); }
        V cl; { S f2; if (c.rng.coin()) { cl = s.clip(p, &f2); } else { f2 = s; cl = f2.clip(p, &f2); c.cover("clip-alias"); } if (in) { c.check(cl == p && f2 == s, "clip-inside"); } else { c.check(magp(lp(cl) - near) <= tol, "clip", what(cl, dist)); faceok(f2, cl, "clip-face"); } c.check(s.clip(p) == cl, "clip-forms"); }
        if (!in) { V n1, n2 = s.normal(p); s.sdf(p, &n1); for (V n : {n1, n2}) { LP nl = lp(n), d = z - near; ld a = magp(nl), cs = a > 0 ? magp(nl * (1 / a) - d * (1 / dist)) : 9; c.check(cs <= 16 * tol / dist + 1e-30L, "normal-direction", [&](auto& o) { o << sv(n) << " off by " << (double)cs; }); } }
        { V par; bool got = s.is_facing(p, &par), got2 = s.is_facing(p); LP o, b; bool want = RSim::proj(v, z, o, &b); ld edge = 1e30L; for (auto x : b) edge = std::min(edge, fabsl(x)); c.check(got == got2, "facing-forms"); if (edge > 64 * tol / wide / q) { c.check(got == want, "facing", [&](auto& o) { for (auto x : b) o << (double)x << " "; }); c.cover(want ? "facing" : "not-facing"); if (got && want && k > 1) for (int i = 1; i < k; ++i) c.check(fabsl((ld)par[i - 1] - b[i]) <= 64 * tol / wide / q, "facing-parameters", [&](auto& o) { o << "parameter " << i - 1 << " is " << par[i - 1] << " want " << (double)b[i]; }); } }
    }
    c.note = show(v, V());
    { ld want = 0, scale = 1, got = s.volume(), f = 1; for (int i = 1; i < k; ++i) { scale *= magp(v[i] - v[0]) / i; } if (full) { std::vector<LP> g; for (int i = 1; i < k; ++i) g.push_back(v[i] - v[0]); want = detp(g); for (int i = 1; i <= N; ++i) want /= i; } ld noise = ext / wide; c.check(full ? fabsl(got - want) <= 64 * E * scale * (1 + noise * 4) : got == 0, "volume", [&](auto& o) { o.precision(17); o << (double)got << " want " << (double)want; }); if (full) c.cover(want < 0 ? "volume-negative" : "volume-positive");
      if (k >= 2) { ld m = s.measure(), w = gramvol(v); c.check(fabsl(m - w) <= 256 * E * scale / q * (1 + noise * 4), "measure", [&](auto& o) { o.precision(17); o << k << " vertices: " << (double)m << " want " << (double)w; }); c.cover("measure-" + std::to_string(k) + "-of-" + std::to_string(N)); } }
    for (int m = 0; m < 3; ++m) { LP d = rdirl(c, N); V x = s.convex_support(tv<T, N>(d)); bool vert = false; for (int i = 0; i < k; ++i) vert = vert || s.pts[i] == x; d = lp(tv<T, N>(d)); c.check(vert && dotp(lp(x), d) >= ref.support(d) - 8 * E * ext * magp(d) * N, "support"); }
    u64 h = 0; for (auto& x : v) for (auto y : x) h = hcomb(h, hval((double)y)); c.nontrivial(h);
}
// rays against simplices of every dimension
template <class T, index_t N> void flat(Ctx& c) {
    typedef Vec<T, N> V; typedef Simplex<T, N> S; const ld E = std::numeric_limits<T>::epsilon(); std::vector<LP> v; ld q; bool thin = c.rng.chance(.15) && N > 2; int k = thin ? c.rng.range(1, N - 1) : N; S s = gens<T, N>(c, k, v, q); ld ext = 0, wide = 0; for (auto& x : v) { wide = std::max(wide, magp(x - v[0])); ext = std::max(ext, magp(x)); }
    for (int m = 0; m < 6; ++m) { LP b(k); ld tot = 0; bool hit = c.rng.coin(); for (int i = 0; i < k; ++i) { b[i] = c.rng.uniform(.05, 1); tot += b[i]; } b = b * (1 / tot); if (!hit && k > 1) { int i = c.rng.below(k), j = (i + 1 + c.rng.below(k - 1)) % k; ld t = b[i] + (ld)c.rng.uniform(.05, 3); b[i] -= t; b[j] += t; } else hit = true; LP at(N); for (int i = 0; i < k; ++i) at = at + v[i] * b[i]; LP d = rdirl(c, N); ld sc = c.rng.coin() ? 1 : pow(10, c.rng.uniform(-1, 1)); V dv = tv<T, N>(d * sc); d = lp(dv); ld t = c.rng.uniform(-3, 3) * (wide + 1) / magp(d); V o = tv<T, N>(at - d * t); Ray<T, N> ray(o, dv); c.note = show(v, o) + " direction " + sv(dv);
        if (thin) { Rect<T, 1> iv = s.intersect(ray); c.check(iv.lo > iv.hi, "thin-is-empty"); c.cover("thin"); continue; }
        // sine of the angle of the ray with the plane
        std::vector<LP> l; for (int i = 1; i < k; ++i) { LP e = v[i] - v[0]; for (int r = 0; r < 2; ++r) for (auto& z : l) e = e - z * (dotp(e, z) / dotp(z, z)); l.push_back(e); } LP e = d; for (int r = 0; r < 2; ++r) for (auto& z : l) e = e - z * (dotp(e, z) / dotp(z, z)); ld sn = magp(e) / magp(d); if (sn < .02L) { c.cover("grazing"); continue; }
        // exact solution for the ray as rounded: (v_i - v_0) u - d s = o - v_0
        std::vector<LP> g(N, LP(N)); LP rhs(N), x; for (int r = 0; r < N; ++r) { for (int i = 1; i < k; ++i) g[r][i - 1] = v[i][r] - v[0][r]; g[r][N - 1] = -d[r]; rhs[r] = (ld)o[r] - v[0][r]; } if (!lsolve(g, rhs, x)) continue; ld sum = 0, lowest = 1e30L; for (int i = 0; i < N - 1; ++i) { sum += x[i]; lowest = std::min(lowest, x[i]); } lowest = std::min(lowest, 1 - sum); ld tol = 256 * E * (ext + magp(lp(o))) / (q * sn * wide); if (fabsl(lowest) < 4 * tol) continue; hit = lowest > 0; ld ts = tol * wide / magp(d) * 4 + 64 * E * fabsl(x[N - 1]) / (q * sn);
        Rect<T, 1> iv = s.intersect(ray); auto say = [&](auto& z) { z.precision(17); z << iv.lo << ".." << iv.hi << " want " << (hit ? "" : "no ") << "hit at " << (double)x[N - 1] << " tolerance " << (double)ts; }; c.check(hit ? iv.lo == iv.hi && fabsl((ld)iv.lo - x[N - 1]) <= ts : iv.lo > iv.hi, "flat-ray", say); c.cover(hit ? "flat-hit" : "flat-miss");
        for (int w = 0; w < 2; ++w) { Vec<T, N - 1> uv; T par = 99; bool got = trace_simplex<T, N>(s.pts, ray, w ? &uv : nullptr, &par); c.check(got == hit && (!hit || fabsl((ld)par - x[N - 1]) <= ts), w ? "trace-uv" : "trace", [&](auto& z) { z.precision(17); z << (got ? "hit at " : "missed, not ") << par << " want " << (hit ? "" : "no ") << "hit at " << (double)x[N - 1] << " tolerance " << (double)ts; }); if (w && got && hit) { ld off = 0; if constexpr (N == 2) off = fabsl((ld)uv[0] - x[0]); else for (int i = 0; i < N - 1; ++i) off = std::max(off, fabsl((ld)uv[i] - x[i])); c.check(off <= 4 * tol, "surface-coordinates", [&](auto& z) { z << "off by " << (double)off; }); } } }
    u64 h = 0; for (auto& x : v) for (auto y : x) h = hcomb(h, hval((double)y)); c.nontrivial(h);
}
// the list of vertices
template <class T, index_t N> void verts(Ctx& c) {
    typedef Vec<T, N> V; typedef Simplex<T, N> S; std::vector<V> m; S s; auto rv = [&] { V v; for (int j = 0; j < N; ++j) v[j] = c.rng.range(-3, 3); return v; }; auto same = [&](const S& s, const std::vector<V>& m, const char* what) { bool ok = s.n == (index_t)m.size(); for (int i = 0; ok && i < s.n; ++i) ok = s.pts[i] == m[i] && s[i] == m[i]; return c.check(ok, what, [&](auto& o) { o << s.n << " vertices, want " << m.size(); }); }; u64 h = N;
    if (c.rng.coin()) { int k = c.rng.range(0, N + 1); std::vector<V> src; for (int i = 0; i < k; ++i) src.push_back(rv()); s = S(src.data(), k); m = src; same(s, m, "array-ctor"); } else { V a = rv(), b = rv(), d = rv(); s = S{a, b, d}; m = {a, b, d}; if ((int)m.size() > N + 1) m.resize(N + 1); same(s, m, "list-ctor"); }
    if (c.rng.chance(.05)) { s = S::standard_simplex(); m.assign(N + 1, V()); for (int i = 1; i <= N; ++i) m[i][i - 1] = 1; same(s, m, "standard"); }
    for (int op = 0; op < 12; ++op) { V p = rv(); int w = c.rng.below(7); h = hcomb(h, w); switch (w) {
        case 0: s.insert(p); if ((int)m.size() <= N) m.push_back(p); else c.cover("insert-full"); break;
        case 1: { S& r = (s |= p); c.check(&r == &s, "returns-self"); if ((int)m.size() <= N) m.push_back(p); break; }
        case 2: { S before = s; S t = s | p; auto m2 = m; if ((int)m2.size() <= N) m2.push_back(p); same(t, m2, "or"); c.check(s == before, "or-pure"); break; }
        case 3: if (m.size()) { int i = c.rng.below(m.size()); s.exclude(i); m.erase(m.begin() + i); c.cover("exclude"); } break;
        case 4: if (m.size()) { int i = c.rng.below(m.size()); S t = s.excluded(i); auto m2 = m; m2.erase(m2.begin() + i); same(t, m2, "excluded"); if (c.rng.coin()) { s = t; m = m2; } c.cover("excluded"); } break;
        case 5: if (m.size()) { int i = c.rng.below(m.size()); s[i] = p; m[i] = p; } break;
        default: { S t = m.size() ? S(m.data(), m.size()) : S(); c.check(t == s && !(t != s) && s == t, "equal"); c.check(std::hash<S>()(t) == std::hash<S>()(s), "hash-ignores-unused"); if (m.size()) { int i = c.rng.below(m.size()); t[i][c.rng.below(N)] += 1; c.check(t != s && !(t == s), "unequal-vertex"); S u = s.excluded(i); c.check(u != s, "unequal-count"); } c.cover("compared"); } }
        same(s, m, "vertices"); }
    { auto X = rxf<T, N>(c); RP d(new RSphere(LP((int)N), 1)); RP r = xfref<T, N>(std::move(d), X); RXf& f = (RXf&)*r; const ld E = std::numeric_limits<T>::epsilon(); S t = s; bool inv = c.rng.coin(); S& self = inv ? (t /= X) : (t *= X); c.check(&self == &t && t.n == s.n, "returns-self"); for (int i = 0; i < s.n; ++i) { LP w = inv ? f.inv(lp(m[i])) : f.fwd(lp(m[i])); ld tol = 256 * E * (inv ? (magp(lp(m[i])) + magp(f.t)) / f.smin * (f.smax / f.smin) : magp(lp(m[i])) * f.smax + magp(f.t)); c.check(magp(lp(t.pts[i]) - w) <= tol, inv ? "inverse-transform" : "transform", [&](auto& o) { o << sv(t.pts[i]) << " want " << sp(w) << " " << f.show(); }); } c.cover(inv ? "inverse-transform" : "transform"); }
    { // coincident vertices enclose nothing
      S t; for (int i = 0; i <= N; ++i) t.insert(rv()); int i = c.rng.below(N + 1), j = (i + 1 + c.rng.below(N)) % (N + 1); t.pts[i] = t.pts[j]; V p = c.rng.coin() ? rv() : t.pts[j]; c.check(!t.contains(p), "degenerate-contains-nothing"); S u; c.check(!u.contains(p), "empty-contains-nothing"); c.cover("degenerate"); }
    c.nontrivial(h);
}
