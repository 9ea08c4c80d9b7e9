#include "tracked.h"
#include "heapcount.inc"
#include <geomc/SmallStorage.h>
#include <memory>

using namespace geom;
using namespace vh;

template <class T, size_t N>
struct Mon {
    typedef SmallStorage<T, N> S;
    typedef std::vector<i64> M;
    typedef Elem<T> E;
    Ctx& c;
    struct Slot { std::unique_ptr<S> s; M m; };
    std::vector<Slot> pool;
    i64 serial = 1;
    std::string trace;
    bool bad = false;

    Mon(Ctx& c) : c(c) {}

    void verify(Slot& k, const char* op) {
        if (bad) return;
        S& s = *k.s;
        const S& cs = s;
        bool ok = true;
        ok &= c.check(cs.size() == k.m.size(), "size", [&](auto& o) { o << "after " << op << ": size " << cs.size() << " model " << k.m.size(); });
        if (!ok) { bad = true; return; }
        ok &= c.check(cs.empty() == k.m.empty(), "empty");
        ok &= c.check(cs.capacity() >= cs.size() && cs.capacity() >= N, "capacity");
        ok &= c.check(cs.begin() == cs.data() && s.begin() == s.data() && (size_t)(s.end() - s.begin()) == k.m.size() && (size_t)(cs.end() - cs.begin()) == k.m.size(), "begin-end");
        ok &= c.check(((uintptr_t)s.data()) % alignof(T) == 0, "alignment");
        for (size_t i = 0; ok && i < k.m.size(); ++i) {
            i64 a = E::get(cs[i]), b = E::get(s.begin()[i]);
            ok &= c.check(a == k.m[i] && b == k.m[i], "element", [&](auto& o) { o << "after " << op << ": [" << i << "] is " << a << "/" << b << " model " << k.m[i]; });
        }
        if (ok && !k.m.empty()) {
            ok &= c.check(E::get(cs.front()) == k.m.front() && E::get(s.front()) == k.m.front(), "front");
            ok &= c.check(E::get(cs.back()) == k.m.back() && E::get(s.back()) == k.m.back(), "back");
        }
        // items live in the object itself exactly when the capacity is the static one
        bool inl = (const char*)cs.data() >= (const char*)&cs && (const char*)cs.data() < (const char*)(&cs + 1);
        ok &= c.check(inl == (cs.capacity() <= N), "inline-storage", [&](auto& o) { o << "after " << op << ": inline=" << inl << " capacity=" << cs.capacity(); });
        if (E::tracked) {
            for (auto& e : life().errors) { c.fail("lifetime", std::string("after ") + op + ": " + e); ok = false; }
            life().errors.clear();
        }
        if (!ok) bad = true;
        c.cover(inl ? "state-inline" : "state-heap");
    }

    // a moved-from container only has to be usable: adopt whatever it holds
    void resync(Slot& k) { k.m.clear(); const S& s = *k.s; if (s.size() > 100000) { bad = true; c.fail("moved-from-size", ""); return; } for (size_t i = 0; i < s.size(); ++i) k.m.push_back(E::get(s[i])); }

    void run() {
        Rng& r = c.rng;
        if (E::tracked) { life().alive.clear(); life().errors.clear(); }
        u64 h = hcomb(N, hstr(E::name()));
        int nops = 4 + r.below(60);
        size_t nslots = 2 + r.below(2);
        for (size_t i = 0; i < nslots; ++i) { pool.push_back({std::make_unique<S>(), {}}); }
        bool grew = false;
        for (int op = 0; op < nops && !bad; ++op) {
            size_t ia = r.below(nslots), ib = r.below(nslots);
            Slot& a = pool[ia]; Slot& b = pool[ib];
            int k = r.below(18);
            size_t cap0 = a.s->capacity();
            const void* d0 = a.s->data();
            std::ostringstream t;
            const char* name = "?";
            switch (k) {
            case 0: case 1: case 2: { name = "push_back"; i64 x = serial++; { T v = E::make(x); T& ref = a.s->push_back(v); c.check(E::get(ref) == x && &ref == &a.s->back(), "push_back-result"); } a.m.push_back(x); break; }
            case 3: { name = "emplace_back"; i64 x = serial++; T& ref = a.s->emplace_back(E::make(x)); c.check(E::get(ref) == x && &ref == &a.s->back(), "emplace_back-result"); a.m.push_back(x); break; }
            case 4: { name = "pop_back"; auto o = a.s->pop_back();
                c.check(o.has_value() == !a.m.empty(), "pop_back-presence");
                if (o.has_value() && !a.m.empty()) { c.check(E::get(*o) == a.m.back(), "pop_back-value"); a.m.pop_back(); } break; }
            case 5: { name = "resize"; size_t n = r.below(3 * N + 4); i64 x = serial++; bool dflt = r.chance(.3);
                t << n;
                if (dflt) { a.s->resize(n); } else { T v = E::make(x); a.s->resize(n, v); }
                size_t n0 = a.m.size(); a.m.resize(n, x);
                if (dflt) for (size_t i = n0; i < n; ++i) a.m[i] = E::get(T{});
                break; }
            case 6: { name = "reserve"; size_t n = r.below(4 * N + 2); t << n; a.s->reserve(n); c.check(a.s->capacity() >= n, "reserve-capacity"); break; }
            case 7: { name = "clear"; a.s->clear(); a.m.clear(); break; }
            case 8: { name = "copy-assign"; t << ib; *a.s = *b.s; a.m = b.m; c.check(*a.s == *b.s, "copy-equal"); if (ia == ib) c.cover("self-copy-assign"); break; }
            case 9: { name = "move-assign"; t << ib; S& src = *b.s; *a.s = std::move(src);
                if (ia == ib) { c.cover("self-move-assign"); resync(a); } else { a.m = b.m; verify(a, "move-assign"); if (!bad) { resync(b); } } break; }
            case 10: { name = "copy-ctor"; t << ib; auto n = std::make_unique<S>(*b.s); M m = b.m; a.s = std::move(n); a.m = m; c.check(ia == ib || *a.s == *b.s, "copy-equal"); break; }
            case 11: { name = "move-ctor"; t << ib; auto n = std::make_unique<S>(std::move(*b.s)); M m = b.m; resync(b); if (!bad) verify(b, "move-ctor source"); a.s = std::move(n); a.m = m; break; }
            case 12: { name = "fill-ctor"; size_t n = r.below(3 * N + 3); i64 x = serial++; t << n; T v = E::make(x); a.s = std::make_unique<S>(v, n); a.m.assign(n, x); break; }
            case 13: { name = "size-ctor"; size_t n = r.below(3 * N + 3); t << n; a.s = std::make_unique<S>(n); a.m.assign(n, E::get(T{})); break; }
            case 14: { name = "array-ctor"; size_t n = r.below(3 * N + 3); t << n; std::vector<T> src; src.reserve(n); a.m.clear(); for (size_t i = 0; i < n; ++i) { a.m.push_back(serial); src.push_back(E::make(serial++)); }
                a.s = std::make_unique<S>(src.data(), n); break; }
            case 15: { name = "init-list-ctor"; i64 x = serial; serial += 5; if (r.coin()) { a.s.reset(new S{E::make(x), E::make(x + 1), E::make(x + 2)}); a.m = {x, x + 1, x + 2}; } else { a.s.reset(new S{E::make(x), E::make(x + 1), E::make(x + 2), E::make(x + 3), E::make(x + 4)}); a.m = {x, x + 1, x + 2, x + 3, x + 4}; } break; }
            case 16: { if (a.m.empty()) break; name = "push-own-element"; size_t i = r.below(a.m.size()); t << i; if (a.s->size() == a.s->capacity()) c.cover("own-element-at-growth"); i64 x = a.m[i]; if (r.coin()) a.s->push_back((*a.s)[i]); else a.s->emplace_back((*a.s)[i]); a.m.push_back(x); break; }
            case 17: { if (a.m.empty()) break; name = "write"; size_t i = r.below(a.m.size()); t << i; i64 x = serial++; (*a.s)[i] = E::make(x); a.m[i] = x;
                // equality is sensitive to every element
                c.check((*a.s == *b.s) == (a.m == b.m), "equality-of-two"); if (ia == ib) c.cover("self-equality"); S cp(*a.s); c.check(cp == *a.s, "equality-equal"); cp[i] = E::make(serial++); c.check(!(cp == *a.s), "equality-different"); break; }
            }
            trace += "[" + std::to_string(ia) + "]" + name + "(" + t.str() + ");";
            c.note = std::string(E::name()) + "," + std::to_string(N) + ": " + trace;
            c.cover(std::string("op-") + name);
            h = hcomb(h, hcomb(hstr(name), hcomb(hstr(t.str().c_str()), a.m.size())));
            bool inplace = k <= 3 || k == 5 || k == 6 || k == 16;
            if (inplace && a.s->capacity() == cap0) c.check(a.s->data() == d0, "stable-until-growth");
            if (inplace && a.m.size() <= cap0 && k != 6) c.check(a.s->capacity() == cap0, "no-growth-needed", [&](auto& o) { o << name << ": capacity " << cap0 << " -> " << a.s->capacity() << " for size " << a.m.size(); });
            if (a.s->capacity() > cap0 && inplace) { grew = true; c.cover("growths"); }
            verify(a, name);
            if (&a != &b) verify(b, name);
        }
        if (bad) { for (auto& s : pool) s.s.release(); }
        pool.clear();
        if (E::tracked && !bad) {
            c.check(life().alive.empty(), "elements-leaked", [&](auto& o) { o << life().alive.size() << " elements never destroyed"; });
            for (auto& e : life().errors) c.fail("lifetime", "at destruction: " + e);
            c.cover("elements-constructed", life().constructed); life().constructed = 0;
        }
        if (grew) c.nontrivial(h);
        if (c.want_sample() && grew) c.sample(c.note);
    }
};

template <class T, size_t N> void suite(Ctx& c) { Mon<T, N> m(c); m.run(); }

// storage balance: the same kind of history, measured with nothing else allocating
template <class T, size_t N> void balance(Ctx& c) {
    Rng& r = c.rng;
    typedef Elem<T> E;
    life().errors.clear(); life().alive.clear();
    i64 ops[40], args[40]; int n = 3 + r.below(37);
    for (int i = 0; i < n; ++i) { ops[i] = r.below(9); args[i] = r.below(3 * N + 3); }
    life().born(&r); life().dead(&r);
    i64 b0 = heap_bytes();
    i64 small_use = 0, small_ops = 0;
    {
        SmallStorage<T, N> a, b;
        for (int i = 0; i < n; ++i) {
            switch (ops[i]) {
            case 0: case 1: a.push_back(E::make(i)); break;
            case 2: a.resize(args[i], E::make(i)); break;
            case 3: a.reserve(args[i]); break;
            case 4: b = a; break;
            case 5: b = std::move(a); break;
            case 6: { SmallStorage<T, N> x(std::move(b)); a = x; break; }
            case 7: a.pop_back(); break;
            case 8: { SmallStorage<T, N> x(a); b = std::move(x); break; }
            }
            if (E::heapfree && a.capacity() <= N && b.capacity() <= N) { small_ops++; small_use |= heap_bytes() - b0; }
        }
    }
    i64 b1 = heap_bytes();
    u64 h = N; for (int i = 0; i < n; ++i) h = hcomb(h, ops[i] * 64 + args[i]);
    c.nontrivial(h);
    c.check(b1 == b0, "heap-leak", [&](auto& o) { o << (b1 - b0) << " bytes not released, " << n << " ops"; });
    if (small_ops) c.check(small_use == 0, "heap-use-while-small");
    c.cover("small-ops-without-heap", small_ops);
    c.cover("balance-histories");
}

TSUITE("history/tracked-1", 1500, 60000, suite<Tracked, 1>)
TSUITE("history/tracked-2", 1500, 60000, suite<Tracked, 2>)
TSUITE("history/tracked-4", 1500, 60000, suite<Tracked, 4>)
TSUITE("history/tracked-8", 1500, 60000, suite<Tracked, 8>)
TSUITE("history/wide-3", 1500, 60000, suite<TrackedWide, 3>)
TSUITE("history/int-4", 1500, 60000, suite<int, 4>)
TSUITE("history/string-3", 1500, 60000, suite<std::string, 3>)
TSUITE("balance/int-4", 3000, 100000, balance<int, 4>)
TSUITE("balance/string-2", 3000, 100000, balance<std::string, 2>)
TSUITE("balance/string-5", 3000, 100000, balance<std::string, 5>)

// appending n items one by one moves them O(log n) times
template <class T, int N> void growth(Ctx& c) {
    SmallStorage<T, N> a; int n = 500 + (int)c.rng.below(3000), k0 = (int)c.rng.below(2 * N + 3); for (int i = 0; i < k0; ++i) a.push_back(Elem<T>::make(i)); if (c.rng.coin()) a.reserve(c.rng.below(50)); 
    size_t cap = a.capacity(); int moves = 0; for (int i = 0; i < n; ++i) { a.push_back(Elem<T>::make(i)); if (a.capacity() != cap) { ++moves; cap = a.capacity(); } }
    c.check(moves <= 40, "amortised-growth", [&](auto& o) { o << moves << " reallocations while appending " << n << " items to " << k0; }); c.cover("amortised-growth"); c.nontrivial(hcomb(n, k0));
}
TSUITE("growth/int-4", 40, 400, growth<int, 4>)
TSUITE("growth/int-1", 40, 400, growth<int, 1>)
