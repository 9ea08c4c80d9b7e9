// One object, read by several threads at once through its const interface only: no race, and the results of one thread.
#pragma once
#include "vh.h"
#include <thread>
using namespace vh;
inline u64 hd(double v) { return v != v ? 0x7ff8 : hval(v); }
template <class T, index_t N> u64 hvec(const geom::Vec<T, N>& v) { u64 h = 3; for (index_t i = 0; i < N; ++i) h = hcomb(h, hd((double)v[i])); return h; }
template <class O, class Use> void shared(Ctx& c, const O& obj, Use use) {
    const int T = 4, K = 6; u64 seed = c.rng.next(), got[T][K]; std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t] { for (int k = 0; k < K; ++k) { Rng r(hcomb(seed, (k + t) % K)); got[t][(k + t) % K] = use(obj, r); } }); // all threads make the same calls, in different order
    for (auto& t : ts) t.join(); bool ok = true; for (int k = 0; k < K; ++k) { Rng r(hcomb(seed, k)); u64 w = use(obj, r); for (int t = 0; t < T; ++t) ok = ok && got[t][k] == w; }
    c.check(ok, "same-as-alone"); c.cover("shared-objects"); c.cover("concurrent-reads", T * K); c.nontrivial(seed);
}
