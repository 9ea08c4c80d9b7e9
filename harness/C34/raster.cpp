#include "vh.h"
#include <geomc/function/Raster.h>
using namespace geom; using namespace vh; typedef long double ld; typedef std::vector<index_t> IX;
template <index_t M> struct G { typedef typename PointType<index_t, M>::point_t grid; static grid make(const IX& v) { grid g; for (index_t i = 0; i < M; ++i) PointType<index_t, M>::iterator(g)[i] = v[i]; return g; } };
template <class I, index_t M> typename PointType<I, M>::point_t mk(const std::vector<I>& v) { typename PointType<I, M>::point_t p; for (index_t i = 0; i < M; ++i) PointType<I, M>::iterator(p)[i] = v[i]; return p; }
template <class O, index_t N, class S> std::vector<ld> un(const S& s) { std::vector<ld> r; for (index_t i = 0; i < N; ++i) r.push_back(PointType<O, N>::iterator(s)[i]); return r; }
static index_t edged(EdgeBehavior e, index_t c, index_t n) { // -1: outside
    switch (e) { case EDGE_CLAMP: return c < 0 ? 0 : c >= n ? n - 1 : c; case EDGE_PERIODIC: { index_t r = c % n; return r < 0 ? r + n : r; } case EDGE_MIRROR: { if (n == 1) return 0; index_t p = 2 * (n - 1), r = c % p; if (r < 0) r += p; return r < n ? r : p - r; } default: return c < 0 || c >= n ? -1 : c; } }
template <class I, class O, index_t M, index_t N> struct Model {
    IX ext; std::vector<O> data; std::vector<O> abyss = std::vector<O>(N, (O)0); std::vector<I> lo, hi;
    size_t total() const { size_t n = 1; for (index_t e : ext) n *= e; return n; }
    std::vector<ld> at(EdgeBehavior e, const IX& c) const { size_t idx = 0, stride = 1; for (index_t i = 0; i < M; ++i) { index_t x = edged(e, c[i], ext[i]); if (x < 0) return std::vector<ld>(abyss.begin(), abyss.end()); idx += x * stride; stride *= ext[i]; } return std::vector<ld>(data.begin() + idx * N, data.begin() + (idx + 1) * N); }
    ld grid(int axis, ld p) const { ld w = (ld)hi[axis] - lo[axis], d = p - lo[axis]; return w == 0 ? d : d * (ext[axis] - 1) / w; }
    std::vector<ld> interp(EdgeBehavior e, Interpolation k, const std::vector<ld>& g) const { std::vector<ld> out(N, 0); int span = k == INTERP_NEAREST ? 1 : k == INTERP_LINEAR ? 2 : 4, first = span == 4 ? -1 : 0; int n = 1; for (index_t i = 0; i < M; ++i) n *= span;
        for (int q = 0; q < n; ++q) { int z = q; ld w = 1; IX c; for (index_t i = 0; i < M; ++i, z /= span) { ld b = k == INTERP_NEAREST ? floorl(g[i] + .5L) : floorl(g[i]), t = g[i] - b; int o = z % span; c.push_back((index_t)b + first + o); ld u = 1; if (span == 2) u = o ? t : 1 - t; if (span == 4) { ld t2 = t * t, t3 = t2 * t; ld wt[4] = {(-t3 + 2 * t2 - t) / 2, (3 * t3 - 5 * t2 + 2) / 2, (-3 * t3 + 4 * t2 + t) / 2, (t3 - t2) / 2}; u = wt[o]; } w *= u; } auto v = at(e, c); for (index_t i = 0; i < N; ++i) out[i] += w * v[i]; }
        return out; }
};
template <class I, class O, index_t M, index_t N> void raster(Ctx& c) {
    typedef Raster<I, O, M, N> R; typedef Model<I, O, M, N> Md; typedef typename R::sample_t S; Md m; for (index_t i = 0; i < M; ++i) m.ext.push_back(c.rng.chance(.12) ? 1 : 2 + (index_t)c.rng.below(5)); size_t tot = m.total(); m.data.assign(tot * N, (O)0);
    bool dom = c.rng.coin(), src = c.rng.coin(); for (index_t i = 0; i < M; ++i) { if (dom) { I l = (I)c.rng.logmag(-2, 2), w = (I)std::abs(c.rng.logmag(-2, 2)); m.lo.push_back(l); m.hi.push_back(l + w); } else { m.lo.push_back(0); m.hi.push_back((I)(m.ext[i] - 1)); } }
    std::vector<O> init; for (size_t i = 0; i < tot * N; ++i) init.push_back((O)c.rng.uniform(-10, 10)); auto g = G<M>::make(m.ext); Rect<I, M> d(mk<I, M>(m.lo), mk<I, M>(m.hi)); R r = dom ? (src ? R(g, init.data(), d) : R(g, d)) : (src ? R(g, init.data()) : R(g)); if (src) m.data = init;
    c.note = str([&](auto& o) { for (index_t e : m.ext) o << e << " "; o << (dom ? "samples over" : "samples"); if (dom) for (index_t i = 0; i < M; ++i) o << " [" << m.lo[i] << "," << m.hi[i] << "]"; });
    c.check(r.dataExtents() == g && r.samplecount() == (index_t)tot && r.inputDimension() == M && r.outputDimension() == N, "extents"); { auto q = r.domain(); bool ok = true; for (index_t i = 0; i < M; ++i) ok = ok && PointType<I, M>::iterator(q.lo)[i] == m.lo[i] && PointType<I, M>::iterator(q.hi)[i] == m.hi[i]; c.check(ok, "domain"); }
    auto cell = [&](bool in) { IX x; for (index_t i = 0; i < M; ++i) x.push_back(in ? (index_t)c.rng.below(m.ext[i]) : c.rng.range(-2 * m.ext[i] - 3, 3 * m.ext[i] + 3)); return x; };
    auto val = [&] { std::vector<O> v; for (index_t i = 0; i < N; ++i) v.push_back((O)c.rng.uniform(-10, 10)); return v; }; auto same = [&](const S& a, const std::vector<ld>& b) { return un<O, N>(a) == b; };
    const EdgeBehavior ES[] = {EDGE_CLAMP, EDGE_PERIODIC, EDGE_MIRROR, EDGE_CONSTANT}; const char* en[] = {"clamp", "periodic", "mirror", "constant"}; const char* in[] = {"nearest", "linear", "cubic"};
    auto tdisc = [&](int e, const auto& p) { switch (e) { case 0: return r.template sample_discrete<EDGE_CLAMP>(p); case 1: return r.template sample_discrete<EDGE_PERIODIC>(p); case 2: return r.template sample_discrete<EDGE_MIRROR>(p); default: return r.template sample_discrete<EDGE_CONSTANT>(p); } };
    auto tsamp = [&](int e, int k, const auto& p) -> S {
#define E3(E) switch (k) { case 0: return r.template sample<E, INTERP_NEAREST>(p); case 1: return r.template sample<E, INTERP_LINEAR>(p); default: return r.template sample<E, INTERP_CUBIC>(p); }
        switch (e) { case 0: E3(EDGE_CLAMP) case 1: E3(EDGE_PERIODIC) case 2: E3(EDGE_MIRROR) default: E3(EDGE_CONSTANT) } };
    R share = r; (void)share;
    for (int step = 0; step < 24; ++step) switch (c.rng.below(7)) {
        case 0: { bool inb = c.rng.chance(.7); IX x = cell(inb); auto v = val(); S s; for (index_t i = 0; i < N; ++i) PointType<O, N>::iterator(s)[i] = v[i]; r.set(G<M>::make(x), s); if (m.at(EDGE_CONSTANT, x).size() && [&] { for (index_t i = 0; i < M; ++i) if (x[i] < 0 || x[i] >= m.ext[i]) return false; return true; }()) { size_t idx = 0, st = 1; for (index_t i = 0; i < M; ++i) { idx += x[i] * st; st *= m.ext[i]; } std::copy(v.begin(), v.end(), m.data.begin() + idx * N); c.cover("set"); } else c.cover("set-outside"); break; }
        case 1: { auto v = val(); S s; for (index_t i = 0; i < N; ++i) PointType<O, N>::iterator(s)[i] = v[i]; r.setAbyss(s); m.abyss = v; break; }
        case 2: { IX x = cell(c.rng.chance(.3)); auto p = G<M>::make(x); bool inb = true; for (index_t i = 0; i < M; ++i) inb = inb && x[i] >= 0 && x[i] < m.ext[i]; c.check(r.contains_gridpt(p) == inb, "contains"); for (int e = 0; e < 4; ++e) { auto w = m.at(ES[e], x); c.check(same(tdisc(e, p), w) && same(r.sample_discrete(p, ES[e]), w), "discrete", [&](auto& o) { o << en[e]; for (index_t k : x) o << " " << k; }); } c.cover(inb ? "discrete-inside" : "discrete-outside"); break; }
        case 3: { IX a = cell(false), b = a; size_t n = 1; for (index_t i = 0; i < M; ++i) { b[i] += (index_t)c.rng.below(4); n *= b[i] - a[i] + 1; } Rect<index_t, M> reg(G<M>::make(a), G<M>::make(b)); int e = (int)c.rng.below(4); std::vector<S> buf(n); bool dyn = c.rng.coin(); if (dyn) r.copy(buf.data(), reg, ES[e]); else switch (e) { case 0: r.template copy<EDGE_CLAMP>(buf.data(), reg); break; case 1: r.template copy<EDGE_PERIODIC>(buf.data(), reg); break; case 2: r.template copy<EDGE_MIRROR>(buf.data(), reg); break; default: r.template copy<EDGE_CONSTANT>(buf.data(), reg); }
            bool ok = true; for (size_t q = 0; q < n; ++q) { size_t z = q; IX x; for (index_t i = 0; i < M; ++i) { size_t w = b[i] - a[i] + 1; x.push_back(a[i] + z % w); z /= w; } ok = ok && same(buf[q], m.at(ES[e], x)); } c.check(ok, "copied-region"); c.cover("copy"); break; }
        default: { std::vector<I> p; std::vector<ld> gp; ld slop = 0; bool at = c.rng.chance(.15); const ld eps = std::numeric_limits<I>::epsilon(); for (index_t i = 0; i < M; ++i) { ld q = at ? (ld)c.rng.range(-m.ext[i], 2 * m.ext[i]) : (ld)c.rng.uniform(-1.5 * m.ext[i], 2.5 * m.ext[i]); if (c.rng.coin()) q = at ? (ld)c.rng.below(m.ext[i]) : (ld)c.rng.uniform(0, m.ext[i] - 1); ld w = (ld)m.hi[i] - m.lo[i]; ld scale = w == 0 ? 1 : m.ext[i] == 1 ? 0 : w / (m.ext[i] - 1); p.push_back((I)(m.lo[i] + q * scale)); gp.push_back(m.grid(i, p.back())); if (scale > 0) slop = std::max(slop, 4 * eps * ((fabsl(p.back()) + fabsl(m.lo[i])) / scale + fabsl(gp.back()) + 1)); }
            if (!dom && at) slop = 0; // sampling space is indexing space: grid points are exact
            auto pt = mk<I, M>(p); int e = (int)c.rng.below(4), k = (int)c.rng.below(3); if (slop > 1e-2) { c.cover("skipped"); break; } ld tol = 20 * (ld)std::pow(4, M) * slop + 20 * 64 * std::pow(1.5L, M) * std::max((ld)std::numeric_limits<O>::epsilon(), eps); bool edge = false; if (k == 0) for (ld x : gp) { ld f = fabsl(x - floorl(x) - .5L); edge |= f <= slop; } if (edge) { c.cover("skipped-tie"); break; } if (k == 0) tol = 0;
            auto w = m.interp(ES[e], (Interpolation)k, gp); auto a = un<O, N>(tsamp(e, k, pt)), b = un<O, N>(k == 1 && e == 0 && c.rng.coin() ? r.sample(pt) : r.sample(pt, ES[e], (Interpolation)k)); ld err = 0; for (index_t i = 0; i < N; ++i) err = std::max(err, std::max(fabsl(a[i] - w[i]), fabsl(b[i] - w[i])) + (a[i] == a[i] && b[i] == b[i] ? 0 : INFINITY)); std::string what = std::string("sample-") + in[k]; c.check(err <= tol, what.c_str(), [&](auto& o) { o << en[e] << " at grid"; for (ld x : gp) o << " " << (double)x; o << " off by " << (double)err << " tolerance " << (double)tol; });
            if (at && !dom) { bool inb = true; IX x; for (index_t i = 0; i < M; ++i) { x.push_back((index_t)llroundl(gp[i])); } auto v = m.at(ES[e], x); ld d0 = 0; for (index_t i = 0; i < N; ++i) d0 = std::max(d0, fabsl(a[i] - v[i])); c.check(d0 <= tol, "sample-point"); c.cover("at-sample-point"); (void)inb; }
            bool neg = false, one = false; for (index_t i = 0; i < M; ++i) { neg |= gp[i] < 0; one |= m.ext[i] == 1; } c.cover(std::string(en[e]) + "-" + in[k]); if (neg) c.cover("below-origin"); if (one) c.cover("single-sample-axis"); }
    }
    c.nontrivial(hcomb(hval(init[0]), hval(m.lo[0])));
}
TSUITE("double-1-1", 4000, 200000, (raster<double, double, 1, 1>)) TSUITE("double-2-1", 4000, 200000, (raster<double, double, 2, 1>)) TSUITE("double-3-1", 4000, 200000, (raster<double, double, 3, 1>)) TSUITE("float-2-3", 4000, 200000, (raster<float, float, 2, 3>)) TSUITE("mixed-2-4", 4000, 200000, (raster<double, float, 2, 4>)) TSUITE("double-1-2", 4000, 200000, (raster<double, double, 1, 2>)) TSUITE("float-3-2", 4000, 200000, (raster<float, double, 3, 2>))
