// Histories of operations on the containers in which elements and allocations fail; afterwards the containers must be
// whole, and in the end nothing may be left.
#include "faults.h"
#include <memory>
#include <geomc/SmallStorage.h>
#include <geomc/Deque.h>
#include <geomc/Storage.h>
#include <geomc/Tree.h>
using namespace geom; using namespace vh;

struct Box { Ctx& c; Rng& r; u64 armed = 0, failed = 0, before = 0; };
// runs `op` with a fault planned; true if it came through
template <class Op> bool attempt(Box& b, Op op) {
    bool arm = b.r.chance(.6); u64 t = g_faults.thrown_alloc + g_faults.thrown_elem; if (arm) { ++b.armed; if (b.r.chance(.35)) g_faults.alloc = 1 + (long)b.r.below(5); else g_faults.elem = 1 + (long)b.r.below(6); }
    bool ok = false, caught = false;
    try { op(); ok = true; } catch (ElementFault&) { caught = true; } catch (std::bad_alloc&) { caught = true; }
    g_faults.alloc = g_faults.elem = 0; bool thrown = g_faults.thrown_alloc + g_faults.thrown_elem > t;
    b.c.check(caught == thrown, "exception-passed-on"); if (caught) ++b.failed; return ok;
}
template <class S> std::vector<int> values(const S& s) { std::vector<int> v; for (size_t i = 0; i < (size_t)s.size(); ++i) v.push_back(s[i].get()); return v; }
std::string show(const std::vector<int>& v) { std::string s; for (int x : v) s += " " + std::to_string(x); return s; }
struct Start { i64 heap; size_t alive; };
template <class F> void history(Ctx& c, F f) {
    u64 seed = c.rng.next(); i64 blocks = 0;
    for (int pass = 0; pass < 2; ++pass) { lives().alive.clear(); lives().errors = 0; g_faults.alloc = g_faults.elem = 0; Rng r(seed); Box b{c, r}; u64 a0 = g_faults.thrown_alloc, e0 = g_faults.thrown_elem; blocks = g_heap; { f(b); }
        blocks = g_heap - blocks; c.check(lives().alive.empty(), "element-left", [&](auto& o) { o << lives().alive.size(); }); c.check(lives().errors == 0, "element-lifetime", [&](auto& o) { o << lives().errors; }); lives().alive.clear(); c.cover("failed-allocations", g_faults.thrown_alloc - a0); c.cover("failed-elements", g_faults.thrown_elem - e0); }
    // the second pass makes nothing that is kept for good
    c.check(blocks == 0, "memory-left", [&](auto& o) { o << blocks << " blocks"; }); c.nontrivial(seed);
}
// what may be in a container after a failed assignment: not specified, other than that it is all alive
template <class S> bool whole(Box& b, const S& s) { u64 e = lives().errors; values(s); bool ok = lives().errors == e; b.c.check(ok && (size_t)s.size() <= (size_t)s.capacity(), "container-whole", [&](auto& o) { o << s.size() << " of " << s.capacity(); }); lives().errors = e; return ok; }

template <size_t N> void small(Ctx& c) { history(c, [](Box& b) {
    typedef SmallStorage<Frail, N> S; Rng& r = b.r; Ctx& c = b.c; std::unique_ptr<S> s[3]; for (auto& x : s) x = std::make_unique<S>(); int n = 10 + (int)r.below(30); int serial = 1;
    for (int i = 0; i < n; ++i) {
        auto& p = s[r.below(3)]; auto& q = s[r.below(3)]; std::vector<int> v = values(*p), w = values(*q); std::vector<Frail> src; size_t k = r.below(7); for (size_t j = 0; j < k; ++j) src.emplace_back(serial + (int)j); bool keeps = true, ok; const char* op; std::unique_ptr<S> t; std::vector<int> want = v; int x = ++serial;
        switch (r.below(13)) {
            case 0: op = "construct-n"; ok = attempt(b, [&] { t = std::make_unique<S>(k); }); if (ok) want.assign(k, 0); break;
            case 1: op = "construct-array"; ok = attempt(b, [&] { t = std::make_unique<S>(src.data(), k); }); if (ok) { want.clear(); for (auto& e : src) want.push_back(e.get()); } break;
            case 2: op = "construct-value"; ok = attempt(b, [&] { t = std::make_unique<S>(Frail(x), k); }); if (ok) want.assign(k, x); break;
            case 3: op = "construct-list"; ok = attempt(b, [&] { t = std::unique_ptr<S>(new S{Frail(x), Frail(x + 1), Frail(x + 2)}); }); if (ok) want = {x, x + 1, x + 2}; break;
            case 4: op = "copy"; ok = attempt(b, [&] { t = std::make_unique<S>(*q); }); if (ok) want = w; break;
            case 5: case 6: op = "assign"; ok = attempt(b, [&] { *p = *q; }); keeps = false; want = w; break;
            case 7: op = "move"; ok = attempt(b, [&] { t = std::make_unique<S>(std::move(*q)); }); if (ok && p != q) *q = S(); if (ok) want = w; break;
            case 8: case 9: op = "push"; ok = attempt(b, [&] { Frail f(x); p->push_back(f); }); if (ok) want.push_back(x); break;
            case 10: op = "emplace"; ok = attempt(b, [&] { p->emplace_back(x); }); if (ok) want.push_back(x); break;
            case 11: op = "resize"; ok = attempt(b, [&] { if (x & 1) p->resize(k); else p->resize(k, x); }); keeps = false; if (!ok && whole(b, *p)) { auto g = values(*p); c.check(g.size() >= v.size() && std::equal(v.begin(), v.end(), g.begin()), "failed-operation-changed-contents"); } if (ok) want.resize(k, x & 1 ? 0 : x); break;
            default: if (r.coin()) { op = "reserve"; ok = attempt(b, [&] { p->reserve(2 * k); }); } else { op = "pop"; bool got = false; ok = attempt(b, [&] { got = !!p->pop_back(); }); if (ok && v.size()) want.pop_back(); c.check(!ok || got == !v.empty(), "pop"); } break;
        }
        if (t) p = std::move(t);
        if (whole(b, *p) && (ok || keeps)) c.check(values(*p) == want, ok ? "result" : "failed-operation-changed-contents", [&](auto& o) { o << op << ":" << show(values(*p)) << ", expected" << show(want); });
        if (p != q) { u64 e = lives().errors; if (whole(b, *q) && strcmp(op, "move")) c.check(values(*q) == w, "source-changed", [&](auto& o) { o << op; }); }
        c.cover(std::string(ok ? "did-" : "failed-") + op);
    } }); }
TSUITE("small-3", 4000, 200000, small<3>) TSUITE("small-1", 4000, 200000, small<1>)

template <index_t N> void deque(Ctx& c) { history(c, [](Box& b) {
    typedef Deque<Frail, N> S; Rng& r = b.r; Ctx& c = b.c; std::unique_ptr<S> s[3]; for (auto& x : s) x = std::make_unique<S>(); int n = 10 + (int)r.below(30); int serial = 1;
    for (int i = 0; i < n; ++i) {
        auto& p = s[r.below(3)]; auto& q = s[r.below(3)]; std::vector<int> v = values(*p), w = values(*q); std::vector<Frail> src; index_t k = r.below(7); for (index_t j = 0; j < k; ++j) src.emplace_back(serial + (int)j); bool keeps = true, ok; const char* op; std::unique_ptr<S> t; std::vector<int> want = v; int x = ++serial;
        switch (r.below(14)) {
            case 0: op = "construct-range"; ok = attempt(b, [&] { t = std::make_unique<S>(src.begin(), k); }); if (ok) { want.clear(); for (auto& e : src) want.push_back(e.get()); } break;
            case 1: op = "construct-capacity"; ok = attempt(b, [&] { t = std::make_unique<S>(k); }); if (ok) want.clear(); break;
            case 2: op = "copy"; ok = attempt(b, [&] { t = std::make_unique<S>(*q); }); if (ok) want = w; break;
            case 3: case 4: op = "assign"; ok = attempt(b, [&] { *p = *q; }); keeps = false; want = w; break;
            case 5: op = "move"; ok = attempt(b, [&] { t = std::make_unique<S>(std::move(*q)); }); if (ok && p != q) q->clear(); if (ok) want = w; break;
            case 6: case 7: op = "push-back"; ok = attempt(b, [&] { if (x & 1) p->push_back(x); else { Frail f(x); p->push_back(f); } }); if (ok) want.push_back(x); break;
            case 8: case 9: op = "push-front"; ok = attempt(b, [&] { if (x & 1) p->push_front(x); else { Frail f(x); p->push_front(f); } }); if (ok) want.insert(want.begin(), x); break;
            case 10: op = "pop-front"; ok = attempt(b, [&] { p->pop_front(); }); if (ok && v.size()) want.erase(want.begin()); break;
            case 11: op = "pop-back"; ok = attempt(b, [&] { p->pop_back(); }); if (ok && v.size()) want.pop_back(); break;
            case 12: op = "reserve"; ok = attempt(b, [&] { p->reserve(2 * k); }); break;
            default: op = "push-own"; if (v.empty()) { ok = true; break; } { size_t j = r.below(v.size()); bool back = r.coin(); ok = attempt(b, [&] { Frail& f = (*p)[j]; if (back) p->push_back(f); else p->push_front(f); }); if (ok) want.insert(back ? want.end() : want.begin(), v[j]); } break;
        }
        if (t) p = std::move(t);
        if (whole(b, *p) && (ok || keeps)) c.check(values(*p) == want, ok ? "result" : "failed-operation-changed-contents", [&](auto& o) { o << op << ":" << show(values(*p)) << ", expected" << show(want); });
        if (p != q && whole(b, *q) && strcmp(op, "move")) c.check(values(*q) == w, "source-changed", [&](auto& o) { o << op; });
        c.cover(std::string(ok ? "did-" : "failed-") + op);
    } }); }
TSUITE("deque-3", 4000, 200000, deque<3>) TSUITE("deque-0", 4000, 200000, deque<0>)

// storage of a dynamic size: of objects which throw, and of different sizes assigned to each other
template <class S, bool Resizes> void storage(Ctx& c) { history(c, [](Box& b) {
    Rng& r = b.r; Ctx& c = b.c; std::unique_ptr<S> s[3]; size_t sz[3]; auto size = [&] { return 1 + r.below(5); }; for (int j = 0; j < 3; ++j) s[j] = std::make_unique<S>(sz[j] = size()); int n = 6 + (int)r.below(20); int serial = 1;
    auto look = [&](S& a, size_t m) { std::vector<int> v; for (size_t j = 0; j < m; ++j) v.push_back(a.get()[j].get()); return v; };
    for (int i = 0; i < n; ++i) {
        size_t pi = r.below(3), qi = r.below(3); S &p = *s[pi], &q = *s[qi]; auto w = look(q, sz[qi]); bool ok; const char* op; std::unique_ptr<S> t; size_t k = size(); std::vector<Frail> src(5);
        switch (r.below(5)) {
            case 0: op = "storage-n"; ok = attempt(b, [&] { t = std::make_unique<S>(k); }); if (ok) sz[pi] = k; break;
            case 1: op = "storage-array"; ok = attempt(b, [&] { t = std::make_unique<S>(k, src.data()); }); if (ok) sz[pi] = k; break;
            case 2: op = "storage-copy"; k = sz[qi]; ok = attempt(b, [&] { t = std::make_unique<S>(q); }); if (ok) sz[pi] = k; if (ok) c.check(look(*t, k) == w, "result"); break;
            case 3: op = "storage-assign"; { i64 was = g_heap; ok = attempt(b, [&] { p = q; }); if (ok) sz[pi] = sz[qi]; if (ok) c.check(look(p, sz[pi]) == w, "result"); (void)was; } break;
            default: op = "storage-set"; ok = attempt(b, [&] { p.get()[0] = Frail(++serial); }); break;
        }
        if (t) s[pi] = std::move(t);
        u64 e = lives().errors; if constexpr (Resizes) sz[pi] = s[pi]->size(); look(*s[pi], sz[pi]); c.check(lives().errors == e, "container-whole", [&](auto& o) { o << op; }); lives().errors = e; c.cover(std::string(ok ? "did-" : "failed-") + op);
    } }); }
TSUITE("storage-unique", 3000, 100000, (storage<UniqueStorage<Frail, 0>, true>)) TSUITE("storage-shared", 3000, 100000, (storage<Storage<Frail, 0>, false>))

// trees: after a failure, iteration, counts and structure must still agree; insertions happen altogether or not at all
void tree(Ctx& c) { history(c, [](Box& b) {
    typedef Tree<Frail, Frail> T; typedef Subtree<Frail, Frail> S; Rng& r = b.r; Ctx& c = b.c; auto t = std::make_unique<T>(); int n = 10 + (int)r.below(25); int serial = 1;
    struct Seen { size_t nodes = 0, items = 0; bool ok = true; std::string text; };
    auto see = [&](T& t) { Seen z; S root = t.root(); std::vector<S> all; std::function<void(S, int)> go = [&](S s, int d) { ++z.nodes; all.push_back(s); z.text += "(" + std::to_string((*s).get()); index_t kids = 0; size_t from = z.items; for (S k = s.begin(); k != s.end(); ++k) { if (++kids > 1000) { z.ok = false; return; } go(k, d + 1); } z.ok = z.ok && kids == s.node_count(); if (kids == 0) { for (auto i = s.items_begin(); i != s.items_end(); ++i) { if (++z.items > 5000) { z.ok = false; return; } z.text += " " + std::to_string(i->get()); } } z.ok = z.ok && (index_t)(z.items - from) == s.item_count(); z.text += ")"; }; go(root, 0); size_t k = 0; for (auto i = root.items_begin(); i != root.items_end() && k < 5000; ++i) ++k; z.ok = z.ok && k == z.items; return std::make_pair(z, all); };
    for (int i = 0; i < n; ++i) {
        auto before = see(*t); auto& all = before.second; S s = all[r.below(all.size())]; bool ok, atomic = true; const char* op; std::vector<Frail> src; for (size_t j = r.below(5); j < 5; ++j) src.emplace_back(++serial); int x = ++serial; std::unique_ptr<T> u; bool fromlo = r.coin();
        switch (r.below(9)) {
            case 0: op = "insert-item"; ok = attempt(b, [&] { s.insert_item(fromlo ? s.items_begin() : s.items_end(), Frail(x)); }); break;
            case 1: op = "insert-items"; ok = attempt(b, [&] { s.insert_items(fromlo ? s.items_begin() : s.items_end(), src.begin(), src.end()); }); break;
            case 2: op = "insert-node"; ok = attempt(b, [&] { s.insert_child_node(fromlo ? s.begin() : s.end(), x); }); break;
            case 3: op = "insert-nodes"; ok = attempt(b, [&] { s.insert_child_nodes(fromlo ? s.begin() : s.end(), src.begin(), src.end()); }); break;
            case 4: op = "tree-copy"; ok = attempt(b, [&] { u = std::make_unique<T>(*t); }); break;
            case 5: op = "tree-of-subtree"; ok = attempt(b, [&] { T w{ConstSubtree<Frail, Frail>(s)}; (void)w; }); break;
            case 6: op = "adopt"; if (all.size() > 30) { ok = true; break; } { S o = all[r.below(all.size())]; atomic = false; ok = attempt(b, [&] { s.adopt(ConstSubtree<Frail, Frail>(o), fromlo ? s.begin() : s.end()); }); } break;
            case 7: op = "split"; atomic = true; ok = attempt(b, [&] { s.split([](const Frail& a, int p) { return a.get() - p; }, serial / 2, x); }); break;
            default: op = "erase"; if (s.node_count()) { ok = attempt(b, [&] { s.erase(s.begin()); }); } else if (s.item_count()) { ok = attempt(b, [&] { s.erase(s.items_begin()); }); } else ok = true; break;
        }
        auto after = see(*t); c.check(after.first.ok, "container-whole", [&](auto& o) { o << op << (ok ? "" : " (failed)") << ": " << after.first.text; }); if (!ok && atomic) c.check(after.first.text == before.first.text, "failed-operation-changed-contents", [&](auto& o) { o << op << ": " << after.first.text << ", was " << before.first.text; });
        if (u) { c.check(see(*u).first.text == after.first.text, "result"); t = std::move(u); } c.cover(std::string(ok ? "did-" : "failed-") + op); if (!after.first.ok) break;
    } }); }
TSUITE("tree", 3000, 100000, tree)
