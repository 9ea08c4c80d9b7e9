#include "vh.h"
#include <geomc/function/Dual.h>
#include <geomc/random/Random.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
using namespace geom; using namespace vh;

// ---- independent statements of the published generators
struct RefLC { u64 s; u64 next64() { return s = s * 6364136223846793005ull + 1442695040888963407ull; } uint32_t next() { return (uint32_t)(next64() >> 32); } };
struct RefMT { // the recurrence, on an unbounded history
    std::vector<uint32_t> x; size_t at = 0;
    RefMT(u64 seed) { RefLC l{seed}; for (int i = 0; i < 624; ++i) x.push_back(l.next()); }
    uint32_t next() { if (at == x.size()) { size_t k = x.size() - 624; uint32_t y = (x[k] & 0x80000000u) | (x[k + 1] & 0x7fffffffu), v = x[k + 397] ^ (y >> 1); if (y & 1) v ^= 0x9908b0dfu; x.push_back(v); } return x[at++]; } };
inline u64 refsm(u64& x) { x += 0x9E3779B97F4A7C15ull; u64 z = x; z ^= z >> 30; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 27; z *= 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct RefXo { u64 s[4]; static u64 rl(u64 v, int k) { return (v << k) | (v >> (64 - k)); }
    u64 next64() { u64 r = rl(s[0] + s[3], 23) + s[0], t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl(s[3], 45); return r; } uint32_t next() { return (uint32_t)(next64() >> 32); } };
static u64 aseed(Ctx& c) { switch (c.rng.below(5)) { case 0: return c.rng.below(4); case 1: return ~c.rng.below(4); case 2: return 1ull << c.rng.below(64); default: return c.rng.next(); } }

SUITE("reference/lcrand", 4000, 200000) {
    u64 s = aseed(c); LCRand g(s); RefLC r{s}; c.note = "seed " + std::to_string(s); Random& b = g;
    for (int i = 0, n = 1 + (int)c.rng.below(400); i < n; ++i) { if (c.rng.chance(.02)) { s = aseed(c); b.rseed(s); r.s = s; c.cover("reseed"); }
        if (c.rng.chance(.3)) c.eq(g.rand64(), r.next64(), "rand64"); else c.eq(c.rng.coin() ? b.rand32() : g.rand32(), r.next(), "rand32"); c.cover("words"); }
    c.nontrivial(s);
}
SUITE("reference/mtrand", 400, 20000) {
    u64 s = aseed(c); MTRand g(s); RefMT r(s); c.note = "seed " + std::to_string(s); Random& b = g;
    for (int i = 0, n = (int)c.rng.range(600, 3000); i < n; ++i) { if (c.rng.chance(.0005)) { s = aseed(c); b.rseed(s); r = RefMT(s); c.cover("reseed"); }
        c.eq(c.rng.coin() ? b.rand32() : g.rand32(), r.next(), "rand32"); c.cover("words"); if (r.at == 625 || r.at == 1249) c.cover("twist"); }
    c.nontrivial(s);
}
SUITE("reference/xoshiro", 4000, 200000) {
    auto fresh = [&](u64 s) { RefXo r; u64 x = s; for (int i = 0; i < 4; ++i) r.s[i] = refsm(x); return r; };
    u64 s = aseed(c); XoshiroRand g(s); RefXo r = fresh(s); c.note = "seed " + std::to_string(s); Random& b = g;
    for (int i = 0, n = 1 + (int)c.rng.below(400); i < n; ++i) {
        if (c.rng.chance(.03)) { c.cover("reseed"); u64 e[4]; for (int k = 0; k < 4; ++k) e[k] = aseed(c);
            switch (c.rng.below(5)) { case 0: s = aseed(c); b.rseed(s); r = fresh(s); break;
              case 1: e[1] |= 1; g.seed(e); std::copy(e, e + 4, r.s); break;
              case 2: { e[1] |= 1; const u64 f[4] = {e[0], e[1], e[2], e[3]}; g.seed(f); std::copy(e, e + 4, r.s); break; }
              case 3: { e[1] |= 1; g = XoshiroRand((const u64*)e); std::copy(e, e + 4, r.s); break; }
              case 4: { int k = 0; g.seed([&] { return e[k++]; }); c.eq(k, 4, "entropy-calls"); for (int j = 0; j < 4; ++j) { u64 x = e[j]; r.s[j] = refsm(x); } break; } } }
        if (c.rng.chance(.3)) c.eq(g.rand64(), r.next64(), "rand64"); else c.eq(c.rng.coin() ? b.rand32() : g.rand32(), r.next(), "rand32"); c.cover("words"); }
    u64 x = s, y = s; for (int i = 0; i < 8; ++i) c.eq(geom::splitmix64(&x), refsm(y), "splitmix");
    c.nontrivial(s);
}

// ---- everything drawn through a generator is a function of its seed and of what was drawn before
template <class T> static u64 hx(const T& v) { if constexpr (std::is_floating_point_v<T>) return hval((double)v); else return mix64((u64)v); }
template <class T, index_t N> static u64 hv(const Vec<T, N>& v) { u64 h = 1; for (index_t i = 0; i < N; ++i) h = hcomb(h, hx(v[i])); return h; }
static const int KINDS = 26;
static u64 draw(Random& g, int op, u64 arg) {
    Sampler<double> s(&g); Sampler<float> sf(&g); double a = (arg % 1000) / 1000. + .5;
    switch (op) {
        case 0: case 1: case 2: return g.rand<bool>();
        case 3: return g.rand32();
        case 4: return hx(g.rand<unsigned>()); case 5: return hx(g.rand<int>()); case 6: return hx(g.rand<long>()); case 7: return hx(g.rand<unsigned long long>());
        case 8: return hx(g.rand<float>()); case 9: return hx(g.rand<double>());
        case 10: return hx(g.rand<int>((int)(arg % 1000000) + 1)); case 11: return hx(g.rand<unsigned long>(arg | 1)); case 12: return hx(g.rand<int>(-5, (int)(arg % 100))); case 13: return hx(g.rand<long long>(-7, (long long)(arg % 100)));
        case 14: return hx(g.rand<float>(3)); case 15: return hx(g.rand<double>(-2, a));
        case 16: return hv(s.unit<3>()); case 17: return hv(sf.unit<2>(2)); case 18: return hv(s.solidball<4>()); case 19: return hv(s.shell<3>(.5, a + 1)); case 20: return hv(s.box<3>()); case 21: return hv(s.cap(Vec<double, 3>(1, a, 2), 1)); case 22: return hv(s.solidarc(0, 1, .5, a + 1));
        case 23: { int o[7] = {1, 2, 3, 4, 5, 6, 7}; permute(o, 7, g); u64 h = 0; for (int x : o) h = hcomb(h, x); return h; }
        case 24: { std::vector<int> o = {1, 2, 3, 4, 5}; permute(o, g); u64 h = 0; for (int x : o) h = hcomb(h, x); return h; }
        case 25: return hv(s.oriented_disk(Vec<double, 3>(1, 2, a), a));
    } return 0;
}
template <class G> void repro(Ctx& c) {
    u64 seed = aseed(c); G g(seed); int n = 5 + (int)c.rng.below(60); std::vector<std::pair<int, u64>> ops; std::vector<u64> out; int cut = (int)c.rng.below(n);
    for (int i = 0; i < n; ++i) ops.push_back({c.rng.chance(.3) ? 0 : (int)c.rng.below(KINDS), c.rng.next()});
    c.note = "seed " + std::to_string(seed) + ", " + std::to_string(n) + " draws";
    G mid(seed + 1); 
    for (int i = 0; i < n; ++i) { if (i == cut) mid = g; out.push_back(draw(g, ops[i].first, ops[i].second)); if (ops[i].first < 3) c.cover("bits"); }
    auto same = [&](G& h, int from, const char* what) { for (int i = from; i < n; ++i) { if (SHARED_RNG && c.rng.chance(.1)) draw(*getRandom(), (int)c.rng.below(KINDS), 3); u64 v = draw(h, ops[i].first, ops[i].second); if (!c.check(v == out[i], what, [&](auto& z) { z << "draw " << i << " of kind " << ops[i].first; })) return; } c.cover(what); };
    G f(seed); same(f, 0, "same-seed");
    G d(aseed(c)); for (int i = 0, k = (int)c.rng.below(1500); i < k; ++i) draw(d, (int)c.rng.below(6), c.rng.next()); Random& b = d; b.rseed(seed); same(d, 0, "reseeded");
    same(mid, cut, "assigned-copy");
    { G p(seed); for (int i = 0; i < cut; ++i) draw(p, ops[i].first, ops[i].second); G q(p); G* two[2] = {&p, &q}; std::vector<u64> r[2]; int at[2] = {cut, cut}; // a copy and the original advance independently, in any order
      while (at[0] < n || at[1] < n) { int w = at[0] == n ? 1 : at[1] == n ? 0 : (int)c.rng.coin(); u64 v = draw(*two[w], ops[at[w]].first, ops[at[w]].second); if (!c.check(v == out[at[w]], "copy")) return; ++at[w]; } c.cover("copy"); }
    if constexpr (std::is_same_v<G, XoshiroRand>) { // whole-state entropy, given as words or by a function
        uint64_t e[4]; for (auto& w : e) w = c.rng.next(); G w(seed), x(e), y(seed); for (int i = 0, k = (int)c.rng.below(40); i < k; ++i) { draw(w, (int)c.rng.below(6), c.rng.next()); draw(y, (int)c.rng.below(6), c.rng.next()); }
        w.seed(e); for (int i = 0; i < n; ++i) if (!c.check(draw(w, ops[i].first, ops[i].second) == draw(x, ops[i].first, ops[i].second), "entropy-words")) return;
        uint64_t s0 = seed, s1 = seed; G z(1); auto f0 = [&] { return ++s0; }; auto f1 = [&] { return ++s1; }; y.seed(f0); z.seed(f1); c.check(s0 == seed + 4, "entropy-words-drawn"); for (int i = 0; i < n; ++i) if (!c.check(draw(y, ops[i].first, ops[i].second) == draw(z, ops[i].first, ops[i].second), "entropy-function")) return;
        uint64_t q = seed, r = seed; G u(1), v(1); auto g0 = [&] { return ++q; }; int at = (int)c.rng.below(4), k = 0; auto g1 = [&] { ++r; return k++ == at ? ~r : r; }; u.seed(g0); v.seed(g1); bool diff = false; for (int i = 0; i < 8; ++i) diff |= u.rand64() != v.rand64(); c.check(diff, "entropy-word-used"); c.cover("entropy"); }
    { G a(seed), e(seed ^ 0x100000001ull); bool diff = false; for (int i = 0; i < 700; ++i) diff |= a.rand32() != e.rand32(); c.check(diff, "seed-used"); }
    c.nontrivial(hcomb(seed, n));
}
TSUITE("repro/lcrand", 3000, 100000, (repro<LCRand>))
TSUITE("repro/mtrand", 3000, 100000, (repro<MTRand>))
TSUITE("repro/xoshiro", 3000, 100000, (repro<XoshiroRand>))
template <class G> void unseeded(Ctx& c) { for (int tries = 0; tries < 3; ++tries) { std::set<std::vector<uint32_t>> seen; int n = 2 + (int)c.rng.below(20); for (int i = 0; i < n; ++i) { G g; std::vector<uint32_t> w; for (int k = 0; k < 8; ++k) w.push_back(g.rand32()); seen.insert(w); } c.cover("unseeded", n); if ((int)seen.size() == n) { c.check(true, "unseeded-distinct"); c.nontrivial(c.index); return; } } c.check(false, "unseeded-distinct"); }
TSUITE("unseeded/lcrand", 500, 5000, (unseeded<LCRand>))
TSUITE("unseeded/mtrand", 500, 5000, (unseeded<MTRand>))
TSUITE("unseeded/xoshiro", 500, 5000, (unseeded<XoshiroRand>))
