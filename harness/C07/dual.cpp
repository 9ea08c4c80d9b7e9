#include "vh.h"
#include <geomc/function/Dual.h>
using namespace vh; using namespace geom;
typedef long double ld;
struct R { ld x, dx; }; // reference: value and derivative
static const ld EPSD = std::numeric_limits<double>::epsilon();

#define DP DiscontinuityPolicy
template <class D, class T> void cmp(Ctx& c, const D& got, ld x, ld dx, const char* op, ld kx = 8, ld kd = 40, ld sx = 0, ld sd = 0) {
    const ld e = std::numeric_limits<T>::epsilon();
    bool okx = fabsl(got.x - x) <= kx * e * (fabsl(x) + sx), okd = fabsl(got.dx - dx) <= kd * e * (fabsl(dx) + sd);
    c.check(okx, op, [&](auto& o) { o << "value " << got.x << " want " << x; });
    c.check(okd, op, [&](auto& o) { o << "derivative " << got.dx << " want " << dx; });
    c.cover(op);
}
template <class T, DP P> void ops(Ctx& c) {
    typedef Dual<T, P> D;
    D a((T)c.rng.logmag(-2, 1.5), (T)c.rng.logmag(-2, 2)), b((T)c.rng.logmag(-2, 1.5), (T)c.rng.logmag(-2, 2)); T s = (T)c.rng.logmag(-2, 1.5);
    if (c.rng.chance(.1)) a.dx = 0; if (c.rng.chance(.1)) b.dx = 0;
    c.note = str([&](auto& o) { o << a << " , " << b << " , " << s; });
    ld x = a.x, dx = a.dx, y = b.x, dy = b.dx, S = s;
    auto chk = [&](const D& g, ld v, ld dv, const char* op, ld sx = 0, ld sd = 0) { cmp<D, T>(c, g, v, dv, op, 8, 40, sx, sd); };
    chk(a + b, x + y, dx + dy, "+", fabsl(x) + fabsl(y), fabsl(dx) + fabsl(dy)); chk(a - b, x - y, dx - dy, "-", fabsl(x) + fabsl(y), fabsl(dx) + fabsl(dy));
    chk(a * b, x * y, x * dy + y * dx, "*", 0, fabsl(x * dy) + fabsl(y * dx)); chk(a / b, x / y, (dx * y - x * dy) / (y * y), "/", 0, (fabsl(dx * y) + fabsl(x * dy)) / (y * y));
    chk(-a, -x, -dx, "neg"); chk(a + s, x + S, dx, "+s", fabsl(x) + fabsl(S)); chk(s + a, x + S, dx, "s+", fabsl(x) + fabsl(S)); chk(a - s, x - S, dx, "-s", fabsl(x) + fabsl(S));
    chk(s - a, S - x, -dx, "s-", fabsl(x) + fabsl(S));
    chk(a * s, x * S, dx * S, "*s"); chk(s * a, x * S, dx * S, "s*"); chk(a / s, x / S, dx / S, "/s"); chk(s / a, S / x, -S * dx / (x * x), "s/");
    { D t = a; t += b; chk(t, x + y, dx + dy, "+=", fabsl(x) + fabsl(y), fabsl(dx) + fabsl(dy)); t = a; t -= b; chk(t, x - y, dx - dy, "-=", fabsl(x) + fabsl(y), fabsl(dx) + fabsl(dy));
      t = a; t *= b; chk(t, x * y, x * dy + y * dx, "*=", 0, fabsl(x * dy) + fabsl(y * dx)); t = a; t /= b; chk(t, x / y, (dx * y - x * dy) / (y * y), "/=", 0, (fabsl(dx * y) + fabsl(x * dy)) / (y * y));
      t = a; t += s; chk(t, x + S, dx, "+=s", fabsl(x) + fabsl(S)); t = a; t -= s; chk(t, x - S, dx, "-=s", fabsl(x) + fabsl(S)); t = a; t *= s; chk(t, x * S, dx * S, "*=s"); t = a; t /= s; chk(t, x / S, dx / S, "/=s");
      t = a; t *= t; chk(t, x * x, 2 * x * dx, "*=self"); t = a; t /= t; chk(t, 1, 0, "/=self", 0, fabsl(dx / x)); t = a; t += t; chk(t, 2 * x, 2 * dx, "+=self"); t = a; t -= t; chk(t, 0, 0, "-=self"); }
    { D t = a; D o = t++; c.check(o.x == a.x && o.dx == a.dx && t.x == a.x + 1 && t.dx == a.dx, "post++"); t = a; o = t--; c.check(o.x == a.x && t.x == a.x - 1 && t.dx == a.dx, "post--"); t = a; c.check((++t).x == a.x + 1 && t.dx == a.dx, "pre++"); t = a; c.check((--t).x == a.x - 1 && t.dx == a.dx, "pre--"); }
    { D t = a; t = s; c.check(t.x == s && t.dx == 0, "assign-scalar"); D u(s); c.check(u.x == s && u.dx == 0, "from-scalar"); D z; c.check(z.x == 0 && z.dx == 0, "default"); c.check((T)a == a.x, "to-scalar");
      Dual<T, DP::NaN> n = a; Dual<T, DP::Left> l = a; c.check(n.x == a.x && n.dx == a.dx && l.x == a.x && l.dx == a.dx, "policy-conversion"); Dual<long double> w = a; c.check(w.x == a.x && w.dx == a.dx, "type-conversion"); }
    { D t = c.rng.coin() ? D(a.x, b.dx) : b; const D& q = a; const D& r = t; c.check((q == r) == (q.x == r.x) && (q != r) == (q.x != r.x) && (q < r) == (q.x < r.x) && (q > r) == (q.x > r.x) && (q <= r) == (q.x <= r.x) && (q >= r) == (q.x >= r.x), "comparison"); c.cover(q.x == r.x ? "equal-primals" : "unequal-primals"); }
    chk(std::fma(a, b, D(s, (T)2)), x * y + S, x * dy + y * dx + 2, "fma", fabsl(x * y) + fabsl(S), fabsl(x * dy) + fabsl(y * dx) + 2);
    // functions and the chain rule. tolerance grows with the conditioning of the function at x
    ld k = fabsl(x) + 1;
    chk(std::sin(a), sinl(x), dx * cosl(x), "sin", k, k * fabsl(dx)); chk(std::cos(a), cosl(x), -dx * sinl(x), "cos", k, k * fabsl(dx));
    { ld cc = cosl(x); if (fabsl(cc) > .01) chk(std::tan(a), tanl(x), dx / (cc * cc), "tan", k / (cc * cc), k * fabsl(dx / (cc * cc * cc))); }
    { D u((T)c.rng.uniform(-.99, .99), a.dx); ld v = u.x, w = 1 - v * v; chk(std::asin(u), asinl(v), dx / sqrtl(w), "asin", 1 / sqrtl(w), fabsl(dx) / powl(w, 1.5L)); chk(std::acos(u), acosl(v), -dx / sqrtl(w), "acos", 1 / sqrtl(w), fabsl(dx) / powl(w, 1.5L)); }
    chk(std::atan(a), atanl(x), dx / (1 + x * x), "atan"); chk(std::atan2(a, b), atan2l(x, y), (y * dx - x * dy) / (x * x + y * y), "atan2", 0, (fabsl(y * dx) + fabsl(x * dy)) / (x * x + y * y));
    { D u((T)c.rng.uniform(-8, 8), a.dx); ld v = u.x; chk(std::exp(u), expl(v), dx * expl(v), "exp", 8 * expl(v), 8 * fabsl(dx) * expl(v)); }
    { D u((T)std::abs(a.x), a.dx); ld v = u.x; chk(std::log(u), logl(v), dx / v, "log", 1); chk(std::sqrt(u), sqrtl(v), dx / (2 * sqrtl(v)), "sqrt");
      D xp((T)c.rng.uniform(-4, 4), b.dx); ld q = xp.x, pw = powl(v, q), l = 1 + fabsl(q * logl(v)); chk(std::pow(u, xp), pw, dx * q * powl(v, q - 1) + dy * pw * logl(v), "pow", l * pw, l * (fabsl(dx * q * powl(v, q - 1)) + fabsl(dy * pw * logl(v))));
      T qs = xp.x; chk(std::pow(u, qs), pw, dx * q * powl(v, q - 1), "pow-s", l * pw, l * fabsl(dx * q * powl(v, q - 1))); chk(std::pow(u.x, xp), pw, dy * pw * logl(v), "s-pow", l * pw, (1 + l) * pw * fabsl(dy) * (1 + fabsl(logl(v)))); }
    { int n = c.rng.range(1, 4); D u = c.rng.chance(.2) ? D(0, a.dx) : a; ld v = u.x; chk(std::pow(u, n), powl(v, n), dx * n * powl(v, n - 1), "pow-int"); if (v == 0) c.cover("pow-of-zero"); }
    { ld m = x < 0 ? -1 : 1; chk(std::abs(a), m * x, m * dx, "abs"); chk(std::min(a, b), x < y ? x : y, x < y ? dx : dy, "min"); chk(std::max(a, b), x > y ? x : y, x > y ? dx : dy, "max"); if (x != roundl(x)) { chk(std::floor(a), floorl(x), 0, "floor"); chk(std::ceil(a), ceill(x), 0, "ceil"); } }
    u64 h = hcomb(hval(a.x), hval(a.dx)); c.nontrivial(hcomb(h, hcomb(hval(b.x), hval(b.dx)))); 
}
TSUITE("double-right", 30000, 300000, (ops<double, DP::Right>))
TSUITE("double-nan", 10000, 100000, (ops<double, DP::NaN>))
TSUITE("double-average", 10000, 100000, (ops<double, DP::Average>))
TSUITE("double-left", 10000, 100000, (ops<double, DP::Left>))
TSUITE("double-inf", 10000, 100000, (ops<double, DP::Inf>))
TSUITE("float-right", 20000, 200000, (ops<float, DP::Right>))

// one-sided derivatives at a kink: f(x0 - h) and f(x0 + h) have slopes l and r
template <DP P> bool resolved(double got, double l, double r, bool jump, double dir) {
    switch (P) {
        case DP::NaN: return std::isnan(got);
        case DP::Left: return got == l;
        case DP::Right: return got == r;
        case DP::Average: return got == (l + r) / 2;
        default: if (jump) return std::isinf(got) && (got > 0) == (dir > 0); return l == r ? got == l : std::isinf(got) && (got > 0) == (r > l);
    }
}
template <DP P> void kinks(Ctx& c) {
    typedef Dual<double, P> D; double d1 = c.rng.coin() ? c.rng.range(-5, 5) : c.rng.uniform(-5, 5), d2 = c.rng.chance(.2) ? d1 : c.rng.uniform(-5, 5), x = c.rng.range(-9, 9);
    c.note = str([&](auto& o) { o << "slopes " << d1 << " " << d2 << " at " << x; });
    // |d1 t| at t = 0; approaching along increasing t, in terms of the argument increasing
    { D g = std::abs(D(c.rng.coin() ? 0. : -0., d1)); c.check(g.x == 0 && resolved<P>(g.dx, -d1, d1, false, 0), "abs", [&](auto& o) { o << g; }); }
    // max(x + d1 t, x + d2 t): before the tie the slower function is larger, after it the faster
    { D g = std::max(D(x, d1), D(x, d2)); c.check(g.x == x && resolved<P>(g.dx, std::min(d1, d2), std::max(d1, d2), false, 0), "max", [&](auto& o) { o << g; }); }
    { D g = std::min(D(x, d1), D(x, d2)); c.check(g.x == x && resolved<P>(g.dx, std::max(d1, d2), std::min(d1, d2), false, 0), "min", [&](auto& o) { o << g; }); }
    if (d1 != 0) for (int k = 0; k < 2; ++k) { D g = k ? std::floor(D(x, d1)) : std::ceil(D(x, d1)); c.check(g.x == x && (P == DP::NaN ? std::isnan(g.dx) : P == DP::Inf ? std::isinf(g.dx) && (g.dx > 0) == (d1 > 0) : g.dx == 0), k ? "floor" : "ceil", [&](auto& o) { o << g; }); }
    double inf = INFINITY, nan = NAN; D f(x, d1), i1(inf, d1), i2(x, -inf), n1(nan, 1), n2(1, nan);
    c.check(std::isfinite(f) && !std::isinf(f) && !std::isnan(f), "finite"); c.check(!std::isfinite(i1) && std::isinf(i1) && std::isinf(i2) && !std::isfinite(i2), "infinite"); c.check(std::isnan(n1) && std::isnan(n2) && !std::isfinite(n2), "nan");
    c.cover(d1 == d2 ? "no-kink" : "kink"); c.nontrivial(hcomb(hval(d1), hcomb(hval(d2), hval(x))));
}
TSUITE("kinks-nan", 5000, 50000, (kinks<DP::NaN>))
TSUITE("kinks-left", 5000, 50000, (kinks<DP::Left>))
TSUITE("kinks-right", 5000, 50000, (kinks<DP::Right>))
TSUITE("kinks-average", 5000, 50000, (kinks<DP::Average>))
TSUITE("kinks-inf", 5000, 50000, (kinks<DP::Inf>))

// random straight-line programs, against differentiation in long double by hand
SUITE("programs", 30000, 600000) {
    const int n = 4; Dual<double> v[n]; R r[n]; u64 h = 0; std::string prog;
    for (int i = 0; i < n; ++i) { double x = c.rng.uniform(-3, 3), d = i == 0 ? 1 : c.rng.uniform(-2, 2); v[i] = {x, d}; r[i] = {x, d}; }
    ld amp = 1; int len = c.rng.range(3, 14);
    for (int t = 0; t < len; ++t) {
        int i = c.rng.below(n), j = c.rng.below(n), k = c.rng.below(n), op = c.rng.below(13); R &a = r[i], &b = r[j]; R o;
        auto lip = [&](ld s) { amp *= 1 + s; };
        Dual<double> g;
        switch (op) {
            case 0: g = v[i] + v[j]; o = {a.x + b.x, a.dx + b.dx}; lip(2); break;
            case 1: g = v[i] - v[j]; o = {a.x - b.x, a.dx - b.dx}; lip(2); break;
            case 2: g = v[i] * v[j]; o = {a.x * b.x, a.x * b.dx + b.x * a.dx}; lip(fabsl(a.x) + fabsl(b.x) + fabsl(a.dx) + fabsl(b.dx)); break;
            case 3: if (fabsl(b.x) < .3) continue; g = v[i] / v[j]; o = {a.x / b.x, (a.dx * b.x - a.x * b.dx) / (b.x * b.x)}; lip((1 + fabsl(a.x) + fabsl(a.dx) + fabsl(b.dx)) * 40); break;
            case 4: g = std::sin(v[i]); o = {sinl(a.x), a.dx * cosl(a.x)}; lip(1 + fabsl(a.dx)); break;
            case 5: g = std::cos(v[i]); o = {cosl(a.x), -a.dx * sinl(a.x)}; lip(1 + fabsl(a.dx)); break;
            case 6: if (fabsl(a.x) > 3) continue; g = std::exp(v[i]); o = {expl(a.x), a.dx * expl(a.x)}; lip((1 + fabsl(a.dx)) * expl(a.x)); break;
            case 7: if (a.x < .3) continue; g = std::log(v[i]); o = {logl(a.x), a.dx / a.x}; lip((1 + fabsl(a.dx)) * 12); break;
            case 8: if (a.x < .3) continue; g = std::sqrt(v[i]); o = {sqrtl(a.x), a.dx / (2 * sqrtl(a.x))}; lip((1 + fabsl(a.dx)) * 4); break;
            case 9: g = std::atan(v[i]); o = {atanl(a.x), a.dx / (1 + a.x * a.x)}; lip(1 + fabsl(a.dx)); break;
            case 10: if (fabsl(a.x - b.x) < .01) continue; g = c.rng.coin() ? (o = a.x < b.x ? a : b, std::min(v[i], v[j])) : (o = a.x > b.x ? a : b, std::max(v[i], v[j])); break;
            case 11: { double s = c.rng.uniform(-2, 2); g = s * v[i] + (v[j] - s) / 2.0; o = {s * a.x + (b.x - s) / 2, s * a.dx + b.dx / 2}; lip(4); break; }
            default: if (fabsl(a.x) < .01) continue; g = std::abs(v[i]); o = {fabsl(a.x), a.x < 0 ? -a.dx : a.dx}; break;
        }
        if (fabsl(o.x) > 1e4 || fabsl(o.dx) > 1e6 || amp > 1e9) break;
        v[k] = g; r[k] = o; h = hcomb(h, op * 64 + i * 16 + j * 4 + k); prog += " " + std::to_string(op);
        c.note = prog;
        c.check(fabsl(g.x - o.x) <= 50 * EPSD * amp * 1e3 && fabsl(g.dx - o.dx) <= 50 * EPSD * amp * 1e3, "program", [&](auto& s) { s << g << " want " << o.x << " + " << o.dx << "dx"; });
        c.cover("program-steps");
    }
    c.nontrivial(h);
}
