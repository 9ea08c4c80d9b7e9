#include "vh.h"
#include "ortho.h"
#include <geomc/function/SphericalHarmonics.h>
using namespace geom; using namespace vh; typedef long double ld; static const ld MPI = acosl(-1.L);
template <class T> Vec<T, 3> dir(Ctx& c) { Vec<T, 3> v; switch (c.rng.below(6)) { case 0: v = Vec<T, 3>(0, 0, c.rng.coin() ? 1 : -1); break; case 1: v = Vec<T, 3>((T)c.rng.logmag(-9, -3), (T)c.rng.logmag(-9, -3), c.rng.coin() ? 1 : -1); break; case 2: v[c.rng.below(3)] = c.rng.coin() ? 1 : -1; break; default: v = Vec<T, 3>((T)c.rng.gauss(), (T)c.rng.gauss(), (T)c.rng.gauss()); } return v * (T)std::abs(c.rng.logmag(-1, 1)); }
struct D { ld x, azi; }; template <class T> D polar(const Vec<T, 3>& v) { ld m = sqrtl((ld)v.x * v.x + (ld)v.y * v.y + (ld)v.z * v.z); return {v.z / m, atan2l(v.y, v.x)}; }
static std::vector<ld> basis(index_t b, D d) { std::vector<ld> r; for (int l = 0; l < b; ++l) for (int m = -l; m <= l; ++m) r.push_back(real_sh(l, m, d.x, d.azi)); return r; }
static ld sum(const std::vector<ld>& c, const std::vector<ld>& y) { ld s = 0; for (size_t i = 0; i < std::min(c.size(), y.size()); ++i) s += c[i] * y[i]; return s; }
static ld mag(const std::vector<ld>& c) { ld s = 0; for (ld x : c) s += fabsl(x); return s; }
static ld zsum(const std::vector<ld>& z, ld x) { ld s = 0; for (size_t l = 0; l < z.size(); ++l) s += z[l] * (ld)peval(legendre_poly((int)l), x); return s; }
template <class S> std::vector<ld> all(const S& s, index_t n) { std::vector<ld> r; for (index_t i = 0; i < n; ++i) r.push_back(s.get()[i]); return r; }
static bool close(const std::vector<ld>& a, const std::vector<ld>& b, ld tol) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(fabsl(a[i] - b[i]) <= tol * (1 + fabsl(b[i])))) return false; return true; }
static std::string show(const std::vector<ld>& a, const std::vector<ld>& b) { return str([&](auto& o) { for (size_t i = 0; i < std::min<size_t>(a.size(), 16); ++i) o << (double)a[i] << (i < b.size() && fabsl(a[i] - b[i]) > 1e-3L * (1 + fabsl(b[i])) ? "!" : "") << " "; o << "| "; for (size_t i = 0; i < std::min<size_t>(b.size(), 16); ++i) o << (double)b[i] << " "; }); }
template <class T, index_t B, index_t ZB, int MAXB = 8> void sh(Ctx& c) {
    typedef SphericalHarmonics<T, B> S; typedef ZonalHarmonics<T, ZB> Z; const index_t b = B ? B : 1 + c.rng.below(std::min(MAXB, 11)), zb = ZB ? ZB : 1 + c.rng.below(MAXB); const ld eps = std::numeric_limits<T>::epsilon(), tol = 512 * std::max(b, zb) * std::max(b, zb) * eps, etol = tol;
    S f = (B && c.rng.coin()) || b == 1 ? S() : S(b); Z z = (ZB && c.rng.coin()) || zb == 1 ? Z() : Z(zb); c.check(f.bands() == b && f.size() == b * b && z.bands() == zb, "bands"); std::vector<ld> fm(b * b, 0), zm(zb, 0); c.check(all(f, b * b) == fm && all(z, zb) == zm, "starts-empty"); uint64_t h = b;
    c.note = str([&](auto& o) { o << b << " bands, " << zb << " zonal"; });
    // the direction tolerance: pole-adjacent directions lose relative precision in 1 - x^2, by at most sqrt(eps)-scaled amounts
    auto slack = [&](D d, const std::vector<ld>& cf) { ld om = std::max(1 - d.x * d.x, 0.L), dx = std::max(8 * eps / std::max(sqrtl(om), sqrtl(eps)), 0.L); return mag(cf) * b * b * (etol + 4 * dx); };
    auto evals = [&](const S& s, const std::vector<ld>& m, const char* what) { for (int k = 0; k < 2; ++k) { auto v = dir<T>(c); D d = polar(v); ld w = sum(m, basis(s.bands(), d)), g = s.eval(v); c.check(fabsl(g - w) <= slack(d, m), what, [&](auto& o) { o << (double)g << " expected " << (double)w << " towards " << (double)v.x << " " << (double)v.y << " " << (double)v.z; }); }
        T alt = (T)c.rng.uniform(0, 3.14159), azi = (T)c.rng.uniform(-7, 7); D d{cosl(alt), azi}; ld w = sum(m, basis(s.bands(), d)), g = s.eval(alt, azi); c.check(fabsl(g - w) <= slack(d, m), what); c.cover("eval", 3); };
    auto ztest = [&](const Z& s, const std::vector<ld>& m, const char* what) { for (int k = 0; k < 3; ++k) { T x = c.rng.chance(.2) ? (T)(c.rng.coin() ? 1 : -1) : (T)c.rng.uniform(-1, 1); ld w = zsum(m, x), g = s.eval(x); c.check(fabsl(g - w) <= tol * (mag(m) + 1e-30L), what, [&](auto& o) { o << (double)g << " expected " << (double)w << " at " << (double)x; }); } c.cover("zonal-eval", 3); };
    auto rc = [&] { return (T)c.rng.uniform(-2, 2); }; auto fill = [&](S& s, std::vector<ld>& m) { for (index_t i = 0; i < s.size(); ++i) m[i] = s.get()[i] = rc(); }; auto zfill = [&](Z& s, std::vector<ld>& m, bool pos = false) { for (index_t i = 0; i < s.bands(); ++i) m[i] = s.get()[i] = pos ? (T)c.rng.uniform(.05, 2) : rc(); };
    for (int l = 0; l < b; ++l) for (int m = -l; m <= l; ++m) { T v = rc(); f.coeff(l, m) = v; fm[l * l + l + m] = v; c.check(((const S&)f).coeff(l, m) == v, "coefficient"); } c.check(all(f, b * b) == fm, "coefficient-layout"); evals(f, fm, "eval"); zfill(z, zm); ztest(z, zm, "zonal-eval");
    { int l = c.rng.below(MAXB + 2), m = (int)c.rng.range(-l, l); T x = (T)c.rng.uniform(-1, 1), a = (T)c.rng.uniform(-7, 7); ld w = real_sh(l, m, x, a), g = spherical_harmonic_coeff<T>(l, m, x, a); c.check(fabsl(g - w) <= 4000 * eps / std::max(1 - (ld)x * x, 1e-3L), "basis-function", [&](auto& o) { o << "l " << l << " m " << m << ": " << (double)g << " expected " << (double)w; }); c.cover("basis-function"); }
    std::vector<ld> gx, gw; const int Q = std::max<int>(9, (b + zb) / 2 + 1); gauss_legendre(Q, gx, gw);
    for (int step = 0; step < 14; ++step) { h = hcomb(h, hval(f.get()[0])); switch (c.rng.below(16)) {
        case 0: { int n = 1 + c.rng.below(3); for (int k = 0; k < n; ++k) { T val = rc(); auto v = dir<T>(c); D d; if (c.rng.coin()) { d = polar(v); f.project(v, val); } else { T alt = (T)c.rng.uniform(0, 3.14159), azi = (T)c.rng.uniform(-7, 7); d = {cosl(alt), azi}; f.project(alt, azi, val); } auto y = basis(b, d); auto before = fm; for (size_t i = 0; i < y.size(); ++i) fm[i] += y[i] * val; auto got = all(f, b * b); ld sl = slack(d, {(ld)val}) * b; c.check(close(got, fm, sl), "project", [&](auto& o) { o << show(got, fm); }); fm = got; } c.cover("project"); break; }
        case 1: { auto v = dir<T>(c); D d = polar(v); S s = B && c.rng.coin() ? S::basis(v) : S::basis(v, b); auto got = all(s, b * b), y = basis(b, d); c.check(s.bands() == b && close(got, y, slack(d, {1}) * b), "basis"); c.cover("basis"); break; }
        case 2: { T k = rc(); if (k == 0) break; bool mul = c.rng.coin(); S& r = mul ? (f *= k) : (f /= k); c.check(&r == &f, "returns-itself"); for (ld& x : fm) x = mul ? x * k : x / k; auto got = all(f, b * b); c.check(close(got, fm, tol), mul ? "times" : "divided"); fm = got; c.cover("scale"); break; }
        case 3: { T k = rc(); auto v = dir<T>(c); ld e0 = f.eval(v), m0 = mag(fm); f += k; ld e1 = f.eval(v); c.check(fabsl(e1 - e0 - k) <= tol * b * b * (m0 + 10), "plus-constant", [&](auto& o) { o << "added " << (double)k << " changed the value by " << (double)(e1 - e0); }); fm = all(f, b * b); c.cover("plus-constant"); break; }
        case 4: { index_t ob = B ? B : 1 + c.rng.below(8); S g(ob); std::vector<ld> gm(ob * ob); fill(g, gm); auto f0 = fm; S s = f + g; index_t mb = std::max(ob, b); std::vector<ld> w(mb * mb, 0); for (size_t i = 0; i < fm.size(); ++i) w[i] += fm[i]; for (size_t i = 0; i < gm.size(); ++i) w[i] += gm[i]; c.check(s.bands() == mb && close(all(s, s.size()), w, tol), "sum", [&](auto& o) { o << show(all(s, s.size()), w); }); c.check(all(f, b * b) == f0 && all(g, ob * ob) == gm, "sum-keeps-operands"); ld dt = 0; for (size_t i = 0; i < std::min(gm.size(), fm.size()); ++i) dt += fm[i] * gm[i]; c.check(fabsl(f.dot(g) - dt) <= tol * (1 + mag(fm)) * (1 + mag(gm)), "dot"); c.cover(ob == b ? "sum" : "sum-of-sizes"); if (ob <= b) { f += g; for (size_t i = 0; i < gm.size(); ++i) fm[i] += gm[i]; auto got = all(f, b * b); c.check(close(got, fm, tol), "plus-equals"); fm = got; c.cover("plus-equals"); } break; }
        case 5: { S g = f; S n = -g; auto w = fm; for (ld& x : w) x = -x; c.check(all(n, b * b) == w, "negated"); c.check(all(f, b * b) == fm, "copy-independent"); g = f; g.clear(); c.check(all(g, b * b) == std::vector<ld>(b * b, 0) && all(f, b * b) == fm, "clear"); c.cover("copy"); break; }
        case 6: { if (c.rng.chance(.2)) { f.coeff(0, 0) = 0; fm[0] = 0; } ld I = fm[0] * sqrtl(4 * MPI); if (I != 0 && fabsl(I) < .05L) break; f.normalize(); if (I != 0) for (ld& x : fm) x /= I; auto got = all(f, b * b); c.check(close(got, fm, tol), "normalize", [&](auto& o) { o << show(got, fm); }); c.cover(I != 0 ? "normalize" : "normalize-zero"); if (I != 0) { f *= 3; } fm = all(f, b * b); break; }
        case 7: { S s(z); index_t sb = B ? B : zb; c.check(s.bands() == sb, "zonal-to-spherical-bands"); auto zz = zm; if ((index_t)zz.size() > sb) zz.resize(sb); for (int k = 0; k < 3; ++k) { auto v = dir<T>(c); D d = polar(v); ld w = zsum(zz, d.x), g = s.eval(v); c.check(fabsl(g - w) <= tol * 8 * (mag(zz) + 1), "zonal-to-spherical", [&](auto& o) { o << (double)g << " expected " << (double)w; }); } c.cover(sb > zb ? "zonal-padded" : sb < zb ? "zonal-cut" : "zonal-to-spherical"); break; }
        case 8: { auto ax = dir<T>(c); S s(z, ax); index_t sb = B ? B : zb; c.check(s.bands() == sb, "zonal-to-spherical-bands"); auto zz = zm; if ((index_t)zz.size() > sb) zz.resize(sb); D a = polar(ax); for (int k = 0; k < 3; ++k) { auto v = k == 0 ? ax : dir<T>(c); D d = polar(v); ld m1 = 0, m2 = 0, dt = 0; for (int i = 0; i < 3; ++i) m1 += (ld)ax[i] * ax[i], m2 += (ld)v[i] * v[i], dt += (ld)ax[i] * v[i]; ld w = zsum(zz, dt / sqrtl(m1 * m2)), g = s.eval(v); c.check(fabsl(g - w) <= 16 * (slack(a, zz) + slack(d, zz)) + tol * mag(zz) * 8, "zonal-along-axis", [&](auto& o) { o << (double)g << " expected " << (double)w; }); } c.cover("zonal-along-axis"); break; }
        case 9: { // convolution is the integral over the sphere of the product with the kernel
            S g = f; g.convolve(z); auto v = dir<T>(c); D d = polar(v); ld s = 0, sd = sqrtl(std::max(1 - d.x * d.x, 0.L)); int NA = std::max<int>(18, b + zb + 2); for (int i = 0; i < Q; ++i) for (int j = 0; j < NA; ++j) { ld azi = 2 * MPI * j / NA, sx = sqrtl(1 - gx[i] * gx[i]); ld dt = gx[i] * d.x + sx * sd * cosl(azi - d.azi); s += gw[i] * 2 * MPI / NA * sum(fm, basis(b, {gx[i], azi})) * zsum(zm, dt); } ld got = g.eval(v); c.check(fabsl(got - s) <= 40 * slack(d, fm) * (1 + mag(zm)), "convolved", [&](auto& o) { o << (double)got << " integral " << (double)s; }); c.cover(zb < b ? "convolve-narrow-kernel" : "convolve"); break; }
        case 10: { Z k(zb); std::vector<ld> km(zb); zfill(k, km); Z g = z; g.convolve(k); std::vector<ld> w(zb); for (int l = 0; l < zb; ++l) w[l] = zm[l] * km[l] * 4 * MPI / (2 * l + 1); c.check(close(all(g, zb), w, tol), "zonal-convolved", [&](auto& o) { o << show(all(g, zb), w); }); c.check(all(z, zb) == zm, "zonal-copy"); c.cover("zonal-convolve"); break; }
        case 11: { Z k(zb); std::vector<ld> km(zb); zfill(k, km, true); int t = c.rng.below(4); T tt = t == 3 ? (T)c.rng.uniform(.1, 2.5) : (T)t; Z g = k; g.diffuse(tt); std::vector<ld> w(zb); for (int l = 0; l < zb; ++l) { ld s = 4 * MPI / (2 * l + 1); w[l] = powl(s * km[l], tt) / s; } c.check(close(all(g, zb), w, tol * 4), "diffused", [&](auto& o) { o << "by " << (double)tt << ": " << show(all(g, zb), w); }); Z e = z; e.diffuse((T)1); c.check(close(all(e, zb), zm, tol * 4), "diffused-once-unchanged", [&](auto& o) { o << show(all(e, zb), zm); }); c.cover("diffuse"); break; }
        case 12: { Z g(zb); zfill(g, zm); index_t ord = c.rng.coin() ? -1 : 1 + (index_t)c.rng.below(zb + 2); if (ord < 1) g.generate_lambertian(); else g.generate_lambertian(ord); index_t ct = ord < 1 ? zb : std::min(ord, zb); std::vector<ld> w(zb, 0); for (int l = 0; l < ct; ++l) { Poly p = pint(pmulx(legendre_poly(l), 1)); w[l] = (2 * l + 1) / 2.L * (ld)(peval(p, 1) - peval(p, 0)); } c.check(close(all(g, zb), w, tol), "lambertian", [&](auto& o) { o << ord << ": " << show(all(g, zb), w); }); z = g; zm = all(z, zb); c.cover("lambertian"); break; }
        case 13: { T x = c.rng.chance(.2) ? (T)c.rng.range(-1, 1) : (T)c.rng.uniform(-1, 1); Z g(zb); zfill(g, zm); g.generate_spot(x); std::vector<ld> w(zb); for (int l = 0; l < zb; ++l) { Poly p = pint(legendre_poly(l)); w[l] = (2 * l + 1) / 2.L * (ld)(peval(p, 1) - peval(p, x)); } c.check(close(all(g, zb), w, tol), "spot", [&](auto& o) { o << (double)x << ": " << show(all(g, zb), w); }); z = g; zm = all(z, zb); c.cover("spot"); break; }
        case 14: { int n = 1 + c.rng.below(3); for (int k = 0; k < n; ++k) { T x = (T)c.rng.uniform(-1, 1), val = rc(); z.project(x, val); for (int l = 0; l < zb; ++l) zm[l] += val * (2 * l + 1) / (4 * MPI) * (ld)peval(legendre_poly(l), x); } auto got = all(z, zb); c.check(close(got, zm, tol * 4), "zonal-project", [&](auto& o) { o << show(got, zm); }); zm = got; ztest(z, zm, "zonal-eval"); c.cover("zonal-project"); break; }
        default: { if constexpr (B == ZB) { Z s(f); c.check(s.bands() == b, "spherical-to-zonal-bands"); T x = (T)c.rng.uniform(-1, 1); ld w = 0; int NA = 2 * b + 2; for (int j = 0; j < NA; ++j) w += sum(fm, basis(b, {(ld)x, 2 * MPI * j / NA})) / NA; ld g = s.eval(x); c.check(fabsl(g - w) <= tol * 8 * (mag(fm) + 1), "spherical-to-zonal", [&](auto& o) { o << (double)g << " average around the pole " << (double)w; }); c.cover("spherical-to-zonal"); }
            if (c.rng.chance(.2)) { z.coeff(0) = 0; zm[0] = 0; } ld I = 4 * MPI * zm[0]; if (I == 0 || fabsl(I) > .05L) { Z g = z; g.normalize(); auto w = zm; if (I != 0) for (ld& q : w) q /= I; c.check(close(all(g, zb), w, tol), "zonal-normalize", [&](auto& o) { o << show(all(g, zb), w); }); c.cover(I != 0 ? "zonal-normalize" : "zonal-normalize-zero"); } ZonalHarmonics<T, 0> k(1 + c.rng.below(8)); ld dt = 0, am = 0; for (index_t i = 0; i < k.bands(); ++i) { k.coeff(i) = rc(); if (i < zb) dt += k.coeff(i) * zm[i], am += fabsl(k.coeff(i) * zm[i]); } c.check(fabsl(z.dot(k) - dt) <= tol * am, "zonal-dot"); c.cover("zonal-dot"); } } }
    evals(f, fm, "eval"); ztest(z, zm, "zonal-eval"); c.nontrivial(h);
}
TSUITE("double-dynamic", 600, 60000, (sh<double, 0, 0>)) TSUITE("float-dynamic", 600, 60000, (sh<float, 0, 0>)) TSUITE("double-4", 600, 60000, (sh<double, 4, 4>)) TSUITE("double-6-dynamic", 600, 60000, (sh<double, 6, 0>)) TSUITE("double-dynamic-5", 600, 60000, (sh<double, 0, 5>)) TSUITE("float-3", 600, 60000, (sh<float, 3, 3>)) TSUITE("double-1", 600, 60000, (sh<double, 1, 1>)) TSUITE("double-5-3", 600, 60000, (sh<double, 5, 3>)) TSUITE("double-large", 150, 12000, (sh<double, 0, 0, 22>))
