#include "vh.h"
#include <geomc/linalg/Vec.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/GridIterator.h>
using namespace vh;
using namespace geom;

template <class P> bool peq(const P& a, const P& b) { return a == b; }

template <class T, index_t N, ArrayOrder O>
void grid(Ctx& c) {
    typedef GridIterator<T, N, O> It; typedef typename PointType<T, N>::point_t P;
    Rect<T, N> r; index_t n = 1; bool empty = c.rng.chance(.1); std::array<T, N> lo, hi;
    for (index_t i = 0; i < N; ++i) { lo[i] = std::is_unsigned<T>::value ? (c.rng.coin() ? 0 : c.rng.range(0, 6)) : c.rng.range(-6, 6); hi[i] = lo[i] + c.rng.range(0, N < 3 ? 6 : 3); }
    if (empty) { int k = c.rng.below(N); if (std::is_unsigned<T>::value) lo[k] = hi[k] + c.rng.range(1, 3); else hi[k] = lo[k] - c.rng.range(1, 3); }
    P plo, phi;
    if constexpr (N == 1) { plo = lo[0]; phi = hi[0]; } else for (index_t i = 0; i < N; ++i) { plo[i] = lo[i]; phi[i] = hi[i]; }
    r = Rect<T, N>(plo, phi);
    for (index_t i = 0; i < N; ++i) n *= std::max<index_t>(0, (index_t)hi[i] - (index_t)lo[i] + 1);
    c.note = str([&](auto& o) { o << "[" ; for (index_t i = 0; i < N; ++i) o << (i ? " x " : "") << (index_t)lo[i] << ".." << (index_t)hi[i]; o << "]"; });
    // reference order
    std::vector<P> ref;
    for (index_t k = 0; k < n; ++k) {
        index_t q = k; P p;
        for (index_t s = 0; s < N; ++s) { index_t i = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE ? s : N - 1 - s; index_t d = hi[i] - lo[i] + 1; T x = lo[i] + q % d; q /= d; if constexpr (N == 1) p = x; else p[i] = x; }
        ref.push_back(p);
    }
    It b = It(r).begin(), e = It(r).end();
    { It g(r); c.check(g == b, "starts-at-begin"); }
    if (!empty) { It g(plo, phi + P(1)); c.check(g == b && g.end() == e, "lo-hi-constructor"); }
    bool ok = c.check(e - b == n && b - e == -n && (b == e) == (n == 0), "distance", [&](auto& o) { o << (e - b) << " want " << n; });
    index_t k = 0;
    for (It i = b; ok && i != e; ++i, ++k) ok = c.check(k < n && peq<P>(*i, ref[k]), "forward", [&](auto& o) { o << "at " << k << " of " << n; });
    ok = ok && c.check(k == n, "forward-count");
    k = n;
    for (It i = e; ok && i != b;) { --i; --k; ok = c.check(k >= 0 && peq<P>(*i, ref[k]), "backward", [&](auto& o) { o << "at " << k << " of " << n; }); }
    ok = ok && c.check(k == 0, "backward-count");
    It i = b; index_t pos = 0;
    for (int s = 0; s < 16 && ok && n; ++s) {
        index_t to = c.rng.range(0, n);
        switch (c.rng.below(5)) { case 0: i += to - pos; break; case 1: i -= pos - to; break; case 2: i = b + to; break; case 3: i = e - (n - to); break; default: if constexpr (N == 1) i = b + to; else i = It(i.region, *(b + to)); }
        pos = to;
        ok = c.check(i - b == pos && e - i == n - pos && (i == e) == (pos == n) && (pos == n || peq<P>(*i, ref[pos])), "jump", [&](auto& o) { o << "to " << pos << " of " << n << " is at " << (i - b); });
        index_t q = c.rng.range(0, n); It j = b + q; ok = ok && c.check(i - j == pos - q && (i < j) == (pos < q) && (i == j) == (pos == q), "difference");
        if (pos < n) { P x = *i; ++i; ++pos; ok = ok && c.check(i - b == pos && (pos == n ? i == e : peq<P>(*i, ref[pos])), "step-after-jump"); --i; --pos; ok = ok && c.check(peq<P>(*i, x), "step-back"); }
        c.cover("jumps");
    }
    // visited points are the region's points, each once
    for (auto& p : ref) ok = ok && c.check(r.contains(p), "point-outside-region");
    c.cover(empty ? "empty-regions" : "regions"); c.cover("points", n);
    c.nontrivial(hcomb(hstr(c.note.c_str()), O));
    if (c.want_sample()) c.sample(c.note + str([&](auto& o) { o << ": " << n << " points"; }));
}
template <class T, index_t N> void both(Ctx& c) { if (c.rng.coin()) grid<T, N, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); else grid<T, N, ARRAYORDER_LAST_DIM_CONSECUTIVE>(c); }
TSUITE("grid-1", 3000, 30000, (both<int, 1>))
TSUITE("grid-2", 10000, 100000, (both<int, 2>))
TSUITE("grid-2-index", 10000, 100000, (both<index_t, 2>))
TSUITE("grid-3", 10000, 100000, (both<index_t, 3>))
TSUITE("grid-4", 6000, 60000, (both<int, 4>))
TSUITE("grid-1-unsigned", 3000, 30000, (both<unsigned, 1>))
TSUITE("grid-2-unsigned", 10000, 100000, (both<unsigned, 2>))
TSUITE("grid-3-uint64", 6000, 60000, (both<uint64_t, 3>))
TSUITE("grid-2-uint8", 6000, 60000, (both<uint8_t, 2>))
TSUITE("grid-3-int16", 6000, 60000, (both<int16_t, 3>))

// regions far too large to enumerate: jumps and distances
template <class T, index_t N, ArrayOrder O>
void vast(Ctx& c) {
    typedef GridIterator<T, N, O> It; typedef typename PointType<T, N>::point_t P; constexpr index_t top = std::min<index_t>(std::numeric_limits<T>::max() / 2 - 10, N < 3 ? 2000000000 : 1000000);
    P lo, hi; index_t n = 1, dim[N], org[N];
    for (index_t i = 0; i < N; ++i) { dim[i] = c.rng.chance(.2) ? 1 : c.rng.range(1, c.rng.coin() ? top : std::min<index_t>(top, 300)); org[i] = std::is_unsigned<T>::value ? (c.rng.coin() ? 0 : c.rng.range(0, top)) : c.rng.range(-top / 2, top / 2 - 1) - dim[i] / 2; T a = org[i], b = org[i] + dim[i] - 1; if constexpr (N == 1) lo = a, hi = b; else lo[i] = a, hi[i] = b; n *= dim[i]; }
    c.note = str([&](auto& o) { for (index_t i = 0; i < N; ++i) o << org[i] << "+" << dim[i] << " "; });
    auto at = [&](index_t k) { P p; for (index_t s = 0; s < N; ++s) { index_t i = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE ? s : N - 1 - s; T x = org[i] + k % dim[i]; k /= dim[i]; if constexpr (N == 1) p = x; else p[i] = x; } return p; };
    It b = It(Rect<T, N>(lo, hi)).begin(), e = b.end();
    bool ok = c.check(e - b == n && b - e == -n, "vast-distance", [&](auto& o) { o << (e - b) << " " << (b - e) << " want " << n; });
    It i = b; index_t pos = 0;
    for (int s = 0; s < 12 && ok; ++s) {
        index_t to = c.rng.chance(.2) ? n - 1 : c.rng.chance(.2) ? 0 : c.rng.range(0, n - 1);
        switch (c.rng.below(4)) { case 0: i += to - pos; break; case 1: i = b + to; break; case 2: i = e - (n - to); break; default: i -= pos - to; break; }
        pos = to; ok = c.check(*i == at(pos) && i - b == pos && b - i == -pos && e - i == n - pos && i - e == pos - n, "vast-jump", [&](auto& o) { o << "to " << pos << " of " << n << " is at " << (i - b); });
        if (ok && pos > 0) { --i; ok = c.check(*i == at(pos - 1) && i - b == pos - 1, "vast-step-back", [&](auto& o) { o << "from " << pos << " of " << n; }); ++i; ok = ok && c.check(*i == at(pos), "vast-step-forward"); }
        if (ok) { index_t q = c.rng.range(0, n - 1); It j = b + q; ok = c.check(i - j == pos - q && (i < j) == (pos < q) && (i == j) == (pos == q), "vast-difference", [&](auto& o) { o << pos << " - " << q << " gives " << (i - j); }); }
    }
    c.cover("vast-regions"); c.nontrivial(hcomb(hstr(c.note.c_str()), O));
}
template <class T, index_t N> void vboth(Ctx& c) { if (c.rng.coin()) vast<T, N, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); else vast<T, N, ARRAYORDER_LAST_DIM_CONSECUTIVE>(c); }
TSUITE("vast-1", 2000, 20000, (vboth<int, 1>))
TSUITE("vast-2", 6000, 60000, (vboth<int, 2>))
TSUITE("vast-3-index", 6000, 60000, (vboth<index_t, 3>))
TSUITE("vast-2-unsigned", 6000, 60000, (vboth<unsigned, 2>))
TSUITE("vast-3-int8", 6000, 60000, (vboth<int8_t, 3>))
TSUITE("vast-1-uint16", 2000, 20000, (vboth<uint16_t, 1>))
