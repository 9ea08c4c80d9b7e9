#include "tracked.h"
#include "heapcount.inc"
#include <geomc/Deque.h>
#include <deque>
#include <memory>

using namespace geom;
using namespace vh;

template <class T, index_t N>
struct Mon {
    typedef Deque<T, N> S;
    typedef std::deque<i64> M;
    typedef Elem<T> E;
    Ctx& c;
    struct Slot { std::unique_ptr<S> s; M m; };
    std::vector<Slot> pool;
    i64 serial = 1;
    std::string trace;
    bool bad = false;
    Mon(Ctx& c) : c(c) {}

    void verify(Slot& k, const char* op) {
        if (bad) return;
        S& s = *k.s;
        const S& cs = s;
        bool ok = c.check(cs.size() == (index_t)k.m.size(), "size", [&](auto& o) { o << "after " << op << ": size " << cs.size() << " model " << k.m.size(); });
        if (!ok) { bad = true; return; }
        ok &= c.check(cs.capacity() >= cs.size() && cs.capacity() >= N, "capacity");
        index_t n = cs.size();
        for (index_t i = 0; ok && i < n; ++i) {
            i64 want = k.m[i];
            ok &= c.check(E::get(cs[i]) == want && E::get(s[i]) == want, "element", [&](auto& o) { o << "after " << op << ": [" << i << "] is " << E::get(cs[i]) << " model " << want; });
            // indices wrap, in both directions
            index_t w = c.rng.range(-3, 3) * n;
            ok &= c.check(&cs[i + w] == &cs[i] && &s[i + w] == &cs[i], "cyclic-index", [&](auto& o) { o << "after " << op << ": [" << i + w << "] is not [" << i << "] of " << n; });
        }
        if (ok && n) {
            ok &= c.check(E::get(cs.front()) == k.m.front() && &s.front() == &cs[0], "front");
            ok &= c.check(E::get(cs.back()) == k.m.back() && &s.back() == &cs[-1], "back");
            if (&cs[0] > &cs[n - 1]) c.cover("state-wrapped");
        }
        c.cover(cs.capacity() <= N ? "state-inline" : "state-heap");
        if (E::tracked) {
            for (auto& e : life().errors) { c.fail("lifetime", std::string("after ") + op + ": " + e); ok = false; }
            life().errors.clear();
        }
        if (!ok) bad = true;
    }
    void resync(Slot& k) { k.m.clear(); const S& s = *k.s; if (s.size() < 0 || s.size() > 100000) { bad = true; c.fail("moved-from-size", ""); return; } for (index_t i = 0; i < s.size(); ++i) k.m.push_back(E::get(s[i])); }

    void run() {
        Rng& r = c.rng;
        if (E::tracked) { life().alive.clear(); life().errors.clear(); }
        u64 h = hcomb(N, hstr(E::name()));
        int nops = 4 + r.below(80);
        size_t nslots = 2 + r.below(2);
        for (size_t i = 0; i < nslots; ++i) pool.push_back({std::make_unique<S>(), {}});
        bool grew = false;
        int bias = r.below(4);
        for (int op = 0; op < nops && !bad; ++op) {
            size_t ia = r.below(nslots), ib = r.below(nslots);
            Slot& a = pool[ia]; Slot& b = pool[ib];
            int k = r.below(22);
            if (bias == 1 && k >= 14) k = r.below(8);
            index_t cap0 = a.s->capacity();
            const void* f0 = a.m.empty() ? nullptr : &a.s->front();
            std::ostringstream t;
            const char* name = "?";
            bool inplace = false;
            switch (k) {
            case 0: case 1: { name = "push_back"; inplace = true; i64 x = serial++; { T v = E::make(x); T& ref = a.s->push_back(v); c.check(&ref == &a.s->back(), "push_back-result"); } a.m.push_back(x); break; }
            case 2: { name = "push_back-move"; inplace = true; i64 x = serial++; T& ref = a.s->push_back(E::make(x)); c.check(&ref == &a.s->back(), "push_back-result"); a.m.push_back(x); break; }
            case 3: case 4: { name = "push_front"; inplace = true; i64 x = serial++; { T v = E::make(x); T& ref = a.s->push_front(v); c.check(&ref == &a.s->front(), "push_front-result"); } a.m.push_front(x); break; }
            case 5: { name = "push_front-move"; inplace = true; i64 x = serial++; T& ref = a.s->push_front(E::make(x)); c.check(&ref == &a.s->front(), "push_front-result"); a.m.push_front(x); break; }
            case 6: case 7: { name = "pop_front"; auto o = a.s->pop_front(); if (c.check(o.has_value() == !a.m.empty(), "pop_front-presence") && o) { c.check(E::get(*o) == a.m.front(), "pop_front-value"); a.m.pop_front(); } break; }
            case 8: case 9: { name = "pop_back"; auto o = a.s->pop_back(); if (c.check(o.has_value() == !a.m.empty(), "pop_back-presence") && o) { c.check(E::get(*o) == a.m.back(), "pop_back-value"); a.m.pop_back(); } break; }
            case 10: { name = "clear"; a.s->clear(); a.m.clear(); break; }
            case 11: { name = "reserve"; index_t n = r.below(4 * N + 6); t << n; a.s->reserve(n); c.check(a.s->capacity() >= n && a.s->capacity() >= cap0, "reserve-capacity"); break; }
            case 12: case 13: { name = "copy-assign"; t << ib; *a.s = *b.s; a.m = b.m; if (ia == ib) c.cover("self-copy-assign"); break; }
            case 14: { name = "move-assign"; t << ib; S& src = *b.s; *a.s = std::move(src);
                if (ia == ib) { c.cover("self-move-assign"); resync(a); } else { a.m = b.m; verify(a, "move-assign"); if (!bad) resync(b); } break; }
            case 15: { name = "copy-ctor"; t << ib; auto n = std::make_unique<S>((const S&)*b.s); M m = b.m; a.s = std::move(n); a.m = m; break; }
            case 16: { name = "move-ctor"; t << ib; auto n = std::make_unique<S>(std::move(*b.s)); M m = b.m; resync(b); if (!bad) verify(b, "move-ctor source"); a.s = std::move(n); a.m = m; break; }
            case 17: { name = "range-ctor"; index_t n = r.below(3 * N + 5); t << n; std::vector<T> src; src.reserve(n); a.m.clear(); for (index_t i = 0; i < n; ++i) { a.m.push_back(serial); src.push_back(E::make(serial++)); }
                a.s = std::make_unique<S>(src.begin(), n); break; }
            case 18: { name = "capacity-ctor"; index_t n = r.below(3 * N + 5); t << n; a.s = std::make_unique<S>(n); a.m.clear(); c.check(a.s->capacity() >= n, "ctor-capacity"); break; }
            case 19: { if (a.m.empty()) break; name = "push-own-element"; inplace = true; index_t i = r.below(a.m.size()); bool f = r.coin(); t << i << (f ? "f" : "b"); if (a.s->size() == a.s->capacity()) c.cover("own-element-at-growth"); i64 x = a.m[i]; if (f) { a.s->push_front((*a.s)[i]); a.m.push_front(x); } else { a.s->push_back((*a.s)[i]); a.m.push_back(x); } break; }
            case 20: case 21: { if (a.m.empty()) break; name = "write"; index_t i = r.below(a.m.size()); t << i; i64 x = serial++; (*a.s)[i - (index_t)a.m.size()] = E::make(x); a.m[i] = x;
                c.check((*a.s == *b.s) == (a.m == b.m) && (*a.s != *b.s) == (a.m != b.m), "equality-of-two"); if (ia == ib) c.cover("self-equality"); S cp(*a.s); c.check(cp == *a.s && !(cp != *a.s), "equality-equal"); cp[i] = E::make(serial++); c.check(!(cp == *a.s) && cp != *a.s, "equality-different");
                cp[i] = E::make(x); cp.pop_back(); c.check(!(cp == *a.s), "equality-length"); break; }
            }
            trace += "[" + std::to_string(ia) + "]" + name + "(" + t.str() + ");";
            c.note = std::string(E::name()) + "," + std::to_string(N) + ": " + trace;
            c.cover(std::string("op-") + name);
            h = hcomb(h, hcomb(hstr(name), hcomb(hstr(t.str().c_str()), a.m.size())));
            if (inplace && (index_t)a.m.size() <= cap0) {
                c.check(a.s->capacity() == cap0, "no-growth-needed", [&](auto& o) { o << name << ": capacity " << cap0 << " -> " << a.s->capacity() << " for size " << a.m.size(); });
                if (k <= 2 && f0) c.check(&a.s->front() == f0, "stable-until-growth");
            }
            if (a.s->capacity() > cap0 && inplace) { grew = true; c.cover("growths"); }
            verify(a, name);
            if (&a != &b) verify(b, name);
        }
        if (bad) for (auto& s : pool) s.s.release();
        pool.clear();
        if (E::tracked && !bad) {
            c.check(life().alive.empty(), "elements-leaked", [&](auto& o) { o << life().alive.size() << " elements never destroyed"; });
            for (auto& e : life().errors) c.fail("lifetime", "at destruction: " + e);
            c.cover("elements-constructed", life().constructed); life().constructed = 0;
        }
        if (grew) c.nontrivial(h);
        if (c.want_sample() && grew) c.sample(c.note);
    }
};
template <class T, index_t N> void suite(Ctx& c) { Mon<T, N> m(c); m.run(); }

template <class T, index_t N> void balance(Ctx& c) {
    Rng& r = c.rng;
    typedef Elem<T> E;
    i64 ops[60], args[60]; int n = 3 + r.below(57);
    for (int i = 0; i < n; ++i) { ops[i] = r.below(11); args[i] = r.below(3 * N + 3); }
    i64 b0 = heap_bytes();
    i64 small_use = 0, small_ops = 0;
    {
        Deque<T, N> a, b;
        for (int i = 0; i < n; ++i) {
            switch (ops[i]) {
            case 0: case 1: a.push_back(E::make(i)); break;
            case 2: case 3: a.push_front(E::make(i)); break;
            case 4: a.reserve(args[i]); break;
            case 5: b = a; break;
            case 6: b = std::move(a); break;
            case 7: { Deque<T, N> x(std::move(b)); a = x; break; }
            case 8: a.pop_back(); break;
            case 9: a.pop_front(); break;
            case 10: { Deque<T, N> x(a); b = std::move(x); break; }
            }
            if (E::heapfree && a.capacity() <= N && b.capacity() <= N) { small_ops++; small_use |= heap_bytes() - b0; }
        }
    }
    i64 b1 = heap_bytes();
    u64 h = N; for (int i = 0; i < n; ++i) h = hcomb(h, ops[i] * 64 + args[i]);
    c.nontrivial(h);
    c.check(b1 == b0, "heap-leak", [&](auto& o) { o << (b1 - b0) << " bytes not released, " << n << " ops"; });
    if (small_ops) c.check(small_use == 0, "heap-use-while-small");
    c.cover("small-ops-without-heap", small_ops);
    c.cover("balance-histories");
}

TSUITE("history/tracked-0", 1500, 60000, suite<Tracked, 0>)
TSUITE("history/tracked-1", 1500, 60000, suite<Tracked, 1>)
TSUITE("history/tracked-3", 1500, 60000, suite<Tracked, 3>)
TSUITE("history/tracked-8", 1500, 60000, suite<Tracked, 8>)
TSUITE("history/wide-2", 1500, 60000, suite<TrackedWide, 2>)
TSUITE("history/int-5", 1500, 60000, suite<int, 5>)
TSUITE("history/string-4", 1500, 60000, suite<std::string, 4>)
TSUITE("balance/int-4", 3000, 100000, balance<int, 4>)
TSUITE("balance/string-0", 3000, 100000, balance<std::string, 0>)
TSUITE("balance/string-5", 3000, 100000, balance<std::string, 5>)

// adding n items one by one, at either end, moves them O(log n) times
template <class T, int N> void growth(Ctx& c) {
    Deque<T, N> a; int n = 500 + (int)c.rng.below(3000), k0 = (int)c.rng.below(2 * N + 3); for (int i = 0; i < k0; ++i) a.push_back(Elem<T>::make(i));
    size_t cap = a.capacity(); int moves = 0; for (int i = 0; i < n; ++i) { if (c.rng.coin()) a.push_back(Elem<T>::make(i)); else a.push_front(Elem<T>::make(i)); if ((size_t)a.capacity() != cap) { ++moves; cap = a.capacity(); } }
    c.check(moves <= 40, "amortised-growth", [&](auto& o) { o << moves << " reallocations while adding " << n << " items to " << k0; }); c.cover("amortised-growth"); c.nontrivial(hcomb(n, k0));
}
TSUITE("growth/int-4", 40, 400, growth<int, 4>)
TSUITE("growth/int-0", 40, 400, growth<int, 0>)
