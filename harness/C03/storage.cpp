#include "tracked.h"
#include "heapcount.inc"
#include <geomc/Storage.h>
#include <memory>
#include <numeric>
using namespace geom;
using namespace vh;

// Dynamic containers of each ownership policy, driven by random histories. The model of a
// container is a handle to an array: shared policies copy handles, unique ones copy arrays.
typedef std::shared_ptr<std::vector<i64>> Arr;

template <class S, class T> struct Verify {
    static void run(Ctx& c, const S& s, const Arr& m, const char* op, bool& bad) {
        S& ms = const_cast<S&>(s);
        for (size_t i = 0; !bad && i < m->size(); ++i) {
            i64 a = Elem<T>::get(s.get()[i]), b = Elem<T>::get(ms[i]), d = Elem<T>::get(s[i]);
            if (!c.check(a == (*m)[i] && b == a && d == a && &ms[i] == ms.get() + i, "element", [&](auto& o) { o << "after " << op << ": [" << i << "] is " << a << " model " << (*m)[i]; })) bad = true;
        }
    }
};

// KIND: 0 Storage<T,0>  1 SizedStorage<T,0>  2 UniqueStorage<T,0>  3 GenericStorage SHARED  4 GenericStorage UNIQUE  5 GenericStorage WRAPPED, 6 WrappedStorage
template <class T, int KIND> struct Kind;
template <class T> struct Kind<T, 0> { typedef Storage<T, 0> S; static constexpr bool shared = true, sized = false, arr = true, il = false, wrapped = false; };
template <class T> struct Kind<T, 1> { typedef SizedStorage<T, 0> S; static constexpr bool shared = true, sized = true, arr = false, il = false, wrapped = false; };
template <class T> struct Kind<T, 2> { typedef UniqueStorage<T, 0> S; static constexpr bool shared = false, sized = true, arr = true, il = true, wrapped = false; };
template <class T> struct Kind<T, 3> { typedef GenericStorage<T, 0, STORAGE_SHARED> S; static constexpr bool shared = true, sized = false, arr = true, il = true, wrapped = false; };
template <class T> struct Kind<T, 4> { typedef GenericStorage<T, 0, STORAGE_UNIQUE> S; static constexpr bool shared = false, sized = true, arr = true, il = false, wrapped = false; };
template <class T> struct Kind<T, 5> { typedef GenericStorage<T, 0, STORAGE_WRAPPED> S; static constexpr bool shared = true, sized = true, arr = false, il = false, wrapped = true; };
template <class T> struct Kind<T, 6> { typedef WrappedStorage<T, 0> S; static constexpr bool shared = true, sized = true, arr = false, il = false, wrapped = true; };

template <class T, int KIND> void history(Ctx& c) {
    typedef Kind<T, KIND> K; typedef typename K::S S; typedef Elem<T> E;
    Rng& r = c.rng;
    life().alive.clear(); life().errors.clear();
    bool bad = false;
    std::string trace;
    u64 h = KIND; i64 serial = 1;
    bool shared_seen = false;
    {
        struct Slot { std::unique_ptr<S> s; Arr m; bool moved = false; };
        std::vector<std::vector<T>> backing; backing.reserve(200);
        std::vector<Slot> pool(3);
        auto fill = [&](Slot& a, size_t n) {
            if constexpr (K::wrapped) {
                backing.emplace_back(); auto& v = backing.back(); v.reserve(n);
                for (size_t i = 0; i < n; ++i) v.push_back(E::make(serial + i));
                a.s = std::make_unique<S>((index_t)n, v.data());
                a.m = std::make_shared<std::vector<i64>>(n);
                for (size_t i = 0; i < n; ++i) (*a.m)[i] = serial++;
                return;
            } else {
                std::vector<T> src; src.reserve(n);
                for (size_t i = 0; i < n; ++i) src.push_back(E::make(serial + i));
                a.m = std::make_shared<std::vector<i64>>(n);
                bool useil = K::il && r.coin();
                if constexpr (K::arr) { if (!useil) { a.s = std::make_unique<S>((index_t)n, src.data()); for (auto& x : *a.m) x = serial++; return; } }
                if constexpr (K::il) { if (useil) { i64 x = serial; serial += 3; a.s.reset(new S({E::make(x), E::make(x + 1), E::make(x + 2)})); a.m = std::make_shared<std::vector<i64>>(std::vector<i64>{x, x + 1, x + 2}); c.cover("init-list"); return; } }
                a.s = std::make_unique<S>((index_t)n);
                for (size_t i = 0; i < n; ++i) { (*a.s)[i] = src[i]; (*a.m)[i] = serial++; }
            }
        };
        for (auto& p : pool) fill(p, r.below(7));
        int nops = 3 + r.below(40);
        for (int op = 0; op < nops && !bad; ++op) {
            size_t ia = r.below(3), ib = r.below(3); Slot &a = pool[ia], &b = pool[ib];
            int k = r.below(7); const char* name = "";
            switch (k) {
            case 0: name = "new"; fill(a, r.below(9)); a.moved = false; break;
            case 1: case 2: name = "copy-assign"; if (b.moved && K::shared && ia != ib) { *a.s = *b.s; a.m = b.m; a.moved = true; break; } *a.s = *b.s; if (ia == ib) { c.cover("self-assign"); break; } a.m = K::shared ? b.m : std::make_shared<std::vector<i64>>(*b.m); a.moved = b.moved; break;
            case 3: { name = "copy-ctor"; auto n = std::make_unique<S>((const S&)*b.s); Arr m = K::shared ? b.m : std::make_shared<std::vector<i64>>(*b.m); bool mv = b.moved; a.s = std::move(n); a.m = m; a.moved = mv; break; }
            case 4: { name = "move-assign"; S& src = *b.s; *a.s = std::move(src);
                if (ia == ib) { c.cover("self-move-assign"); break; }
                a.m = b.m; a.moved = b.moved;
                if (!K::wrapped) { b.m = std::make_shared<std::vector<i64>>(); b.moved = true; if constexpr (KIND == 1) fill(b, 2), b.moved = false; }
                else if (K::sized && KIND >= 5) {}
                break; }
            case 5: { name = "move-ctor"; auto n = std::make_unique<S>(std::move(*b.s)); Arr m = b.m; bool mv = b.moved; if (!K::wrapped) { b.m = std::make_shared<std::vector<i64>>(); b.moved = true; if constexpr (KIND == 1) fill(b, 2), b.moved = false; } if (ia == ib) c.cover("move-into-own-slot"); a.s = std::move(n); a.m = m; a.moved = mv; break; }
            case 6: { if (a.m->empty()) break; name = "write"; size_t i = r.below(a.m->size()); i64 x = serial++; if (r.coin()) (*a.s)[i] = E::make(x); else a.s->get()[i] = E::make(x); (*a.m)[i] = x; break; }
            }
            trace += "[" + std::to_string(ia) + "]" + name + "(" + std::to_string(ib) + ");";
            c.note = "kind " + std::to_string(KIND) + " " + E::name() + ": " + trace;
            h = hcomb(h, k * 9 + ia * 3 + ib);
            c.cover(std::string("op-") + name);
            for (auto& p : pool) {
                if constexpr (K::sized) { if (!c.check(p.s->size() == (index_t)p.m->size(), "size", [&](auto& o) { o << "after " << name << " size " << p.s->size() << " model " << p.m->size(); })) bad = true; }
                Verify<S, T>::run(c, *p.s, p.m, name, bad);
            }
            // aliasing is exactly what the ownership policy says
            for (int x = 0; x < 3; ++x) for (int y = x + 1; y < 3; ++y) {
                if (pool[x].m->empty() || pool[y].m->empty()) continue;
                bool same = pool[x].s->get() == pool[y].s->get(), want = pool[x].m == pool[y].m;
                if (same) { c.cover("aliased-states"); shared_seen = true; }
                if (!c.check(same == want, "ownership", [&](auto& o) { o << "after " << name << ": containers " << x << "," << y << (same ? " share" : " do not share"); })) bad = true;
            }
            for (auto& e : life().errors) { c.fail("lifetime", std::string("after ") + name + ": " + e); bad = true; }
            life().errors.clear();
        }
        if (bad) for (auto& p : pool) p.s.release();
    }
    if (E::tracked && !bad) {
        c.check(life().alive.empty(), "elements-leaked", [&](auto& o) { o << life().alive.size(); });
        for (auto& e : life().errors) c.fail("lifetime", "at destruction: " + e);
    }
    c.nontrivial(h);
    if (c.want_sample()) c.sample(c.note);
    (void)shared_seen;
}

template <class S, class T, int N, bool ARRONLY, bool ISUNIQ> void fixed_kind(Ctx& c) {
    typedef Elem<T> E; Rng& r = c.rng;
    life().alive.clear(); life().errors.clear();
    {
        T src[N]; i64 m[N], m2[N];
        for (int i = 0; i < N; ++i) { m[i] = r.below(1000); src[i] = E::make(m[i]); }
        S a(N, src);
        auto same = [&](const S& s, const i64* w, const char* what) { S& ms = const_cast<S&>(s); for (int i = 0; i < N; ++i) c.check(E::get(s[i]) == w[i] && E::get(s.get()[i]) == w[i] && &ms[i] == ms.get() + i, what); c.eq(s.size(), (index_t)N, "static-size"); };
        same(a, m, "static-init");
        S b(a); same(b, m, "static-copy");
        int k = r.below(N); std::copy(m, m + N, m2); m2[k] = 5000; b[k] = E::make(5000);
        same(b, m2, "static-write"); same(a, m, "static-independent");
        a = b; same(a, m2, "static-assign"); same(b, m2, "static-assign-source");
        S d(std::move(a)); same(d, m2, "static-move");
        S& alias = d; d = alias; same(d, m2, "static-self-assign");
        c.check((char*)d.get() >= (char*)&d && (char*)(d.get() + N) <= (char*)(&d + 1), "static-inline");
        c.nontrivial(hcomb(m[0] * 1000 + m[N - 1], k));
    }
    c.check(life().alive.empty(), "elements-leaked");
    for (auto& e : life().errors) c.fail("lifetime", e);
    c.cover("static-cases");
}
template <class T, int N> void fixeds(Ctx& c) {
    fixed_kind<Storage<T, N>, T, N, false, false>(c);
    fixed_kind<UniqueStorage<T, N>, T, N, false, true>(c);
    { T src[N]; i64 m[N]; for (int i = 0; i < N; ++i) { m[i] = c.rng.below(999); src[i] = Elem<T>::make(m[i]); }
      GenericStorage<T, N, STORAGE_SHARED> g(N, src); GenericStorage<T, N, STORAGE_UNIQUE> u(N, src); GenericStorage<T, N, STORAGE_WRAPPED> w(N, src); WrappedStorage<T, N> w2(N, src);
      auto w3 = w;
      for (int i = 0; i < N; ++i) c.check(Elem<T>::get(g[i]) == m[i] && Elem<T>::get(u[i]) == m[i] && w.get() + i == &src[i] && &w[i] == &src[i] && &w3[i] == &src[i] && &w2[i] == &src[i], "generic-static");
      c.check(g.size() == N && u.size() == N && w.size() == N && w2.size() == N, "generic-static-size");
      int k = c.rng.below(N); w[k] = Elem<T>::make(4321); c.check(Elem<T>::get(src[k]) == 4321 && Elem<T>::get(w3[k]) == 4321 && Elem<T>::get(g[k]) == m[k] && Elem<T>::get(u[k]) == m[k], "wrapped-writes-through"); }
    { SizedStorage<T, N> s; c.eq(s.size(), (index_t)N, "sized-static"); SizedStorage<T, N> s2(3); c.eq(s2.size(), (index_t)N, "sized-static"); }
}

template <int KIND> void balance(Ctx& c) {
    typedef typename Kind<int, KIND>::S S;
    int ops[30], args[30]; int n = 2 + c.rng.below(28);
    for (int i = 0; i < n; ++i) { ops[i] = c.rng.below(5); args[i] = 1 + c.rng.below(40); }
    i64 b0 = heap_bytes();
    {
        S a(3), b(4);
        for (int i = 0; i < 3; ++i) a[i] = i;
        for (int i = 0; i < 4; ++i) b[i] = i;
        for (int i = 0; i < n; ++i) switch (ops[i]) {
            case 0: a = b; break;
            case 1: { S x(b); x = a; b = x; break; }
            case 2: { S x(args[i]); for (int j = 0; j < args[i]; ++j) x[j] = j; b = std::move(x); break; }
            case 3: { S x(b); a = std::move(x); break; }
            case 4: { S x(args[i]); for (int j = 0; j < args[i]; ++j) x[j] = j; a = x; break; }
        }
    }
    i64 b1 = heap_bytes();
    c.check(b0 == b1, "heap-leak", [&](auto& o) { o << b1 - b0; });
    u64 h = KIND; for (int i = 0; i < n; ++i) h = hcomb(h, ops[i] * 64 + args[i]);
    c.nontrivial(h); c.cover("balance-histories");
}

TSUITE("dynamic/storage", 2000, 60000, history<Tracked, 0>)
TSUITE("dynamic/sized", 2000, 60000, history<Tracked, 1>)
TSUITE("dynamic/unique", 2000, 60000, history<Tracked, 2>)
TSUITE("dynamic/generic-shared", 2000, 60000, history<Tracked, 3>)
TSUITE("dynamic/generic-unique", 2000, 60000, history<Tracked, 4>)
TSUITE("dynamic/generic-wrapped", 2000, 60000, history<Tracked, 5>)
TSUITE("dynamic/wrapped", 2000, 60000, history<Tracked, 6>)
TSUITE("dynamic/unique-string", 2000, 60000, history<std::string, 2>)
TSUITE("dynamic/shared-string", 2000, 60000, history<std::string, 0>)
TSUITE("static/tracked-1", 500, 20000, fixeds<Tracked, 1>)
TSUITE("static/tracked-4", 500, 20000, fixeds<Tracked, 4>)
TSUITE("static/int-7", 500, 20000, fixeds<int, 7>)
TSUITE("balance/storage", 2000, 60000, balance<0>)
TSUITE("balance/unique", 2000, 60000, balance<2>)
TSUITE("balance/generic-shared", 2000, 60000, balance<3>)
TSUITE("balance/generic-unique", 2000, 60000, balance<4>)
