#include "tracked.h"
#include "heapcount.inc"
#include <optional>
#include <memory>
#include <list>
#include <geomc/Tree.h>
using namespace geom;
using namespace vh;

// Random histories of every mutation and query of Trees, run in lockstep with a plain model:
// nodes owning vectors of children, leaves owning vectors of items.
struct MNode {
    i64 data = 0;
    MNode* parent = nullptr;
    std::vector<std::unique_ptr<MNode>> kids;
    std::vector<i64> items;
    void all_items(std::vector<i64>& o) const { if (kids.empty()) o.insert(o.end(), items.begin(), items.end()); for (auto& k : kids) k->all_items(o); }
    void preorder(std::vector<MNode*>& o) { o.push_back(this); for (auto& k : kids) k->preorder(o); }
    // "sibling-contiguous" order of the descendents
    void siborder(std::vector<const MNode*>& o) const { for (auto& k : kids) o.push_back(k.get()); for (auto& k : kids) k->siborder(o); }
    size_t index() const { for (size_t i = 0; i < parent->kids.size(); ++i) if (parent->kids[i].get() == this) return i; return 0; }
    std::unique_ptr<MNode> clone() const { auto n = std::make_unique<MNode>(); n->data = data; n->items = items; for (auto& k : kids) { n->kids.push_back(k->clone()); n->kids.back()->parent = n.get(); } return n; }
    bool same(const MNode& o) const { if (data != o.data || items != o.items || kids.size() != o.kids.size()) return false; for (size_t i = 0; i < kids.size(); ++i) if (!kids[i]->same(*o.kids[i])) return false; return true; }
    bool within(const MNode* a) const { for (const MNode* n = this; n; n = n->parent) if (n == a) return true; return false; }
};

static VH_TLS std::set<i64>* g_bound;   // nodes that pass the bounding function
template <class NI, class LI> bool bound_fn(const NI& n, const LI&) { return g_bound->count(Elem<NI>::get(n)); }

template <class NI, class LI> struct Hist {
    typedef Tree<NI, LI> T;
    typedef Subtree<NI, LI> S;
    typedef ConstSubtree<NI, LI> CS;
    typedef Elem<NI> EN; typedef Elem<LI> EL;
    struct Slot { std::unique_ptr<T> t; std::unique_ptr<MNode> m; std::map<const MNode*, S> handles; };

    Ctx& c; Rng& r; bool bad = false; const char* op = ""; std::vector<Slot> pool;
    i64 serial = 1;
    Hist(Ctx& c) : c(c), r(c.rng), pool(2) {}

    bool ok(bool cond, const char* what) { if (!c.check(cond, what, [&](auto& o) { o << "after " << op; })) bad = true; return cond; }

    static S at(Slot& s, const MNode* m) {
        std::vector<size_t> path; for (; m->parent; m = m->parent) path.push_back(m->index());
        S x = s.t->root();
        while (!path.empty()) { x = x.begin(); for (size_t i = 0; i < path.back(); ++i) ++x; path.pop_back(); }
        return x;
    }

    template <class Sub> void verify_node(Slot& slot, const Sub& s, const MNode* m, bool nonconst) {
        if (bad) return;
        if (!ok(EN::get(*s) == m->data && EN::get(*s.operator->()) == m->data, "node-value")) return;
        if (!ok(s.node_count() == (index_t)m->kids.size(), "child-count")) return;
        std::vector<i64> want; m->all_items(want);
        if (!ok(s.item_count() == (index_t)want.size(), "item-count")) return;
        auto i = s.items_begin();
        for (size_t k = 0; k < want.size(); ++k, ++i) if (!ok(EL::get(*i) == want[k], "items-in-depth-first-order")) return;
        if (!ok(i == s.items_end(), "items-end")) return;
        ok(s.is_root() == (m->parent == nullptr), "is-root");
        if constexpr (std::is_same<Sub, S>::value) {
            auto h = slot.handles.find(m);
            if (h == slot.handles.end()) slot.handles.emplace(m, s); else ok(h->second == s, "iterator-stays-valid");
        }
        Sub k = s.begin();
        for (size_t j = 0; j < m->kids.size() && !bad; ++j, ++k) {
            Sub p = k.parent();
            ok(p == s, "parent");
            Sub up = k; -up; ok(up == s, "parent-operator");
            if (j > 0) { Sub l = k; --l; ok(EN::get(*l) == m->kids[j - 1]->data, "previous-sibling"); l++; ok(l == k, "next-sibling"); l--; ok(EN::get(*l) == m->kids[j - 1]->data, "previous-sibling"); }
            else { Sub d = s; +d; ok(d == k, "first-child-operator"); }
            verify_node(slot, k, m->kids[j].get(), nonconst);
        }
        if (bad) return;
        ok(k == s.end(), "children-end");
        std::vector<const MNode*> o; m->siborder(o);
        Sub x = s.subtree_begin();
        for (size_t j = 0; j < o.size(); ++j, ++x) if (!ok(x != s.subtree_end() && EN::get(*x) == o[j]->data, "sibling-contiguous-order")) return;
        ok(x == s.subtree_end(), "subtree-end");
    }

    template <class Tr> void verify_tree(Slot& slot, Tr& t) {
        std::vector<const MNode*> o; o.push_back(slot.m.get()); slot.m->siborder(o);
        std::vector<i64> want; slot.m->all_items(want);
        if (!ok(t.size() == o.size(), "tree-size")) return;
        ok(t.item_count() == want.size(), "tree-item-count");
        auto x = t.begin();
        for (size_t j = 0; j < o.size(); ++j, ++x) if (!ok(x != t.end() && EN::get(*x) == o[j]->data, "whole-tree-order")) return;
        ok(x == t.end(), "tree-end");
        ok(t.root() == t.begin() && t.root().parent() == t.end() && t.root().global_begin() == t.begin() && t.root().global_end() == t.end() && &t.root().tree() == &t, "root");
        verify_node(slot, t.root(), slot.m.get(), true);
    }
    void verify(Slot& s) {
        if (r.coin()) verify_tree<T>(s, *s.t); else { verify_tree<const T>(s, *s.t); c.cover("const-verifications"); }
        for (auto& e : life().errors) { c.fail("lifetime", std::string("after ") + op + ": " + e); bad = true; }
        life().errors.clear();
    }

    MNode* pick_node(Slot& s, bool leaf = false, bool leafitems = false) {
        std::vector<MNode*> v; s.m->preorder(v);
        if (leaf) { std::vector<MNode*> l; for (auto* n : v) if (n->kids.empty() && (!leafitems || !n->items.empty())) l.push_back(n); if (l.empty()) return nullptr; return r.pick(l); }
        return r.pick(v);
    }
    typename S::item_iterator item_at(const S& s, size_t k) { auto i = s.items_begin(); while (k--) ++i; return i; }
    S child_at(const S& s, size_t k) { S i = s.begin(); while (k--) ++i; return i; }
    void forget(Slot& s, MNode* m, bool self) { std::vector<MNode*> v; m->preorder(v); for (auto* n : v) if (self || n != m) s.handles.erase(n); }

    void queries(Slot& s) {
        std::vector<MNode*> all; s.m->preorder(all);
        MNode* from = r.pick(all); S f = at(s, from);
        // the leaf that owns an item
        if (MNode* l = pick_node(s, true, true)) {
            S ls = at(s, l); auto it = item_at(ls, r.below(l->items.size()));
            S got = f.find_parent(it);
            if (l->within(from)) { ok(got == ls, "find-parent"); c.cover("parent-found"); } else { ok(got == f.end(), "find-parent-outside"); c.cover("parent-not-in-subtree"); }
            CS cf = f; CS cgot = cf.find_parent(it);
            ok(cgot == CS(got), "find-parent-const");
            std::set<i64> b; for (MNode* n = l; n; n = n->parent) b.insert(n->data);
            bool complete = true;
            for (auto* n : all) if (r.coin()) b.insert(n->data);
            if (r.chance(.1)) { b.erase(l->data); complete = false; }
            g_bound = &b;
            S got2 = f.template find_parent<bound_fn<NI, LI>>(it);
            if (l->within(from) && complete) ok(got2 == ls, "find-parent-bounded"); else ok(got2 == f.end(), "find-parent-bounded-outside");
        }
        // nodes that pass a test, among those whose ancestors pass the bound
        std::set<i64> b, t;
        double pb = r.coin() ? .9 : .5, pt = r.coin() ? 1 : r.coin() ? .5 : .1;
        for (auto* n : all) { if (r.chance(pb)) b.insert(n->data); if (r.chance(pt)) t.insert(n->data); }
        std::multiset<i64> want, got, got2;
        std::function<void(MNode*)> walk = [&](MNode* n) { if (t.count(n->data)) want.insert(n->data); if (b.count(n->data)) for (auto& k : n->kids) walk(k.get()); };
        walk(from);
        auto bf = [&b](const S& x, i64) { return b.count(EN::get(*x)) > 0; };
        auto tf = [&t](const S& x, i64) { return t.count(EN::get(*x)) > 0; };
        size_t guard = 0;
        for (auto q = f.query((i64)7, bf, tf); q != f.end() && guard < all.size() + 2; ++q, ++guard) got.insert(EN::get(**q));
        c.cover("query-visits", got.size()); if (from != s.m.get() && !want.empty()) c.cover("queries-below-root");
        if (!c.check(got == want, "query", [&](auto& o) { o << "visited " << got.size() << " of " << want.size() << " nodes"; })) bad = true;
        auto cbf = [&b](const CS& x, i64) { return b.count(EN::get(*x)) > 0; };
        CS cf = f; guard = 0;
        for (auto q = cf.query((i64)7, cbf, CS::template visit_all_leaf_nodes<i64>); q != cf.end() && guard < all.size() + 2; q++, ++guard) got2.insert(EN::get(**q));
        want.clear();
        std::function<void(MNode*)> walkl = [&](MNode* n) { if (n->kids.empty()) want.insert(n->data); if (b.count(n->data)) for (auto& k : n->kids) walkl(k.get()); };
        walkl(from);
        if (!c.check(got2 == want, "query-leaves", [&](auto& o) { o << "visited " << got2.size() << " of " << want.size() << " leaves"; })) bad = true;
    }

    void step(int k, std::string& trace, u64& h) {
        size_t is = r.below(2); Slot& s = pool[is]; Slot& other = pool[1 - is];
        std::vector<MNode*> all; s.m->preorder(all);
        bool big = all.size() > 40;
        if (big && (k <= 3 || k == 12)) k = 9 + r.below(3);
        MNode* m = r.pick(all); S n = at(s, m); i64 id = m->data;
        size_t pos = m->kids.empty() ? 0 : r.coin() ? (r.coin() ? 0 : m->kids.size()) : r.below(m->kids.size() + 1);
        auto adopt_items = [&] (MNode* first) { if (m->kids.size() == 1) { first->items = std::move(m->items); m->items.clear(); } };
        auto invalid_before = [&](S& x) { // some node that is neither a child nor the end of m
            for (int a = 0; a < 6; ++a) { MNode* z = r.pick(all); S zs = at(s, z); if (z->parent != m && zs != n.end()) { x = zs; return true; } }
            if (n.end() != s.t->end()) { x = s.t->end(); return true; }
            return false; };
        switch (k) {
        case 0: case 1: { op = "insert-node";
            i64 v = serial++; S got;
            if (pos == m->kids.size() && r.coin()) got = n.insert_child_node(EN::make(v));
            else if (r.chance(.1)) { S x = n; if (!invalid_before(x)) break; ok(n.insert_child_node(x, EN::make(v)) == n.end(), "refused-insert-returns-end"); c.cover("refused-node-inserts"); break; }
            else got = n.insert_child_node(child_at(n, pos), EN::make(v));
            auto mk = std::make_unique<MNode>(); mk->data = v; mk->parent = m; MNode* raw = mk.get();
            if (m->kids.empty() && !m->items.empty()) c.cover("first-child-takes-items");
            m->kids.insert(m->kids.begin() + pos, std::move(mk)); adopt_items(raw);
            ok(EN::get(*got) == v && got.parent() == n, "insert-returns-node"); break; }
        case 2: { op = "insert-nodes";
            std::vector<NI> v; size_t ct = r.below(4); i64 s0 = serial; for (size_t i = 0; i < ct; ++i) v.push_back(EN::make(serial++));
            S got;
            if (ct && r.chance(.1)) { S x = n; if (!invalid_before(x)) break; ok(n.insert_child_nodes(x, v.begin(), v.end()) == n.end(), "refused-insert-returns-end"); c.cover("refused-node-inserts"); break; }
            if (pos == m->kids.size() && r.coin()) got = n.insert_child_nodes(v.begin(), v.end()); else got = n.insert_child_nodes(child_at(n, pos), v.begin(), v.end());
            if (ct == 0) { ok(got == n.end(), "empty-insert-returns-end"); break; }
            for (size_t i = 0; i < ct; ++i) { auto mk = std::make_unique<MNode>(); mk->data = s0 + i; mk->parent = m; MNode* raw = mk.get(); bool was = m->kids.empty(); m->kids.insert(m->kids.begin() + pos + i, std::move(mk)); if (was) adopt_items(raw); }
            ok(EN::get(*got) == s0, "insert-returns-first-node"); break; }
        case 3: case 4: { op = "insert-item";
            i64 v = serial++; size_t p = m->items.empty() ? 0 : r.below(m->items.size() + 1);
            if (!m->kids.empty()) { ok(n.insert_item(n.items_end(), EL::make(v)) == n.items_end(), "refused-item-insert"); c.cover("refused-item-inserts"); break; }
            auto got = p == m->items.size() && r.coin() ? n.insert_item(EL::make(v)) : n.insert_item(item_at(n, p), EL::make(v));
            m->items.insert(m->items.begin() + p, v);
            ok(EL::get(*got) == v && got == item_at(n, p), "insert-returns-item"); break; }
        case 5: { op = "insert-items";
            std::vector<LI> v; size_t ct = r.below(5); i64 s0 = serial; for (size_t i = 0; i < ct; ++i) v.push_back(EL::make(serial++));
            size_t p = m->items.empty() ? 0 : r.below(m->items.size() + 1);
            if (!m->kids.empty()) { ok(n.insert_items(n.items_end(), v.begin(), v.end()) == n.items_end(), "refused-item-insert"); c.cover("refused-item-inserts"); break; }
            index_t cnt = ct ? -5 : 0;
            auto got = p == m->items.size() && r.coin() ? (cnt = ct, n.insert_items(v.begin(), v.end())) : n.insert_items(item_at(n, p), v.begin(), v.end(), &cnt);
            if (ct == 0) { ok(got == n.items_end(), "empty-insert-returns-end"); break; }
            ok(cnt == (index_t)ct, "insert-reports-count");
            for (size_t i = 0; i < ct; ++i) m->items.insert(m->items.begin() + p + i, s0 + i);
            ok(got == item_at(n, p), "insert-returns-first-item"); break; }
        case 6: case 7: { op = "erase-item";
            bool done = r.coin();
            MNode* l = pick_node(s, true, true); if (!l) return;
            if (r.chance(.15)) { // an item of another leaf, or through an internal node
                S ls = at(s, l); auto it = item_at(ls, r.below(l->items.size()));
                if (m == l) return;
                ok(n.erase(it, &done) == n.items_end() && !done, "refused-erase"); c.cover("refused-erases"); break; }
            S ls = at(s, l); size_t p = r.below(l->items.size());
            auto got = r.coin() ? ls.erase(item_at(ls, p), &done) : (done = true, ls.erase(item_at(ls, p)));
            l->items.erase(l->items.begin() + p);
            ok(done, "erase-reports-success"); ok(got == item_at(ls, p), "erase-returns-next-item"); if (l->items.empty()) c.cover("leaves-emptied"); break; }
        case 8: { op = "erase-node";
            bool done = r.coin();
            if (m->kids.empty() || r.chance(.15)) {
                S x = n; MNode* z = r.pick(all); if (z->parent == m) return; x = at(s, z); if (r.chance(.2)) x = s.t->end();
                ok(n.erase(x, &done) == n.end() && !done, "refused-erase"); c.cover("refused-erases"); break; }
            size_t p = r.below(m->kids.size());
            S got = r.coin() ? n.erase(child_at(n, p), &done) : (done = true, n.erase(child_at(n, p)));
            MNode* dead = m->kids[p].get(); if (!dead->kids.empty()) c.cover("subtrees-erased");
            forget(s, dead, true); m->kids.erase(m->kids.begin() + p);
            ok(done, "erase-reports-success"); ok(got == child_at(n, p), "erase-returns-next-node"); break; }
        case 9: { op = "clear"; if (m == s.m.get() && r.chance(.8)) return; n.clear(); forget(s, m, false); m->kids.clear(); m->items.clear(); break; }
        case 10: { op = "flatten"; if (m == s.m.get() && r.chance(.8)) return; n.flatten(); std::vector<i64> it; m->all_items(it); forget(s, m, false); if (!m->kids.empty()) c.cover("flattened"); m->kids.clear(); m->items = it; break; }
        case 11: { op = "split";
            if (r.coin()) if (MNode* l = pick_node(s, true, true)) { m = l; n = at(s, m); id = m->data; }
            i64 pivot = m->items.empty() ? 0 : r.pick(m->items) + (i64)r.below(2); i64 v = serial++;
            if (r.chance(.1)) pivot = r.coin() ? -1 : serial + 1;
            auto cmp = [](const LI& a, i64 b) { i64 x = EL::get(a); return x < b ? -1 : x > b ? 1 : 0; };
            S got = n.split(cmp, pivot, EN::make(v));
            if (!m->parent || !m->kids.empty() || m->items.size() < 2) { ok(got == n.end(), "refused-split"); c.cover("refused-splits"); break; }
            auto mk = std::make_unique<MNode>(); mk->data = v; mk->parent = m->parent; MNode* lo = mk.get();
            size_t idx = m->index(); m->parent->kids.insert(m->parent->kids.begin() + idx, std::move(mk));
            std::vector<i64> hi; for (i64 x : m->items) (x < pivot ? lo->items : hi).push_back(x);
            m->items = hi;
            ok(EN::get(*got) == v, "split-returns-node");
            ok(got.item_count() == (index_t)lo->items.size() && n.item_count() == (index_t)hi.size(), "split-counts"); if (bad) break;
            if (lo->items.size() && hi.size()) c.cover("split-in-two"); else c.cover("split-to-one-side");
            // the order within each part is not specified
            for (int a = 0; a < 2; ++a) { S x = a ? n : got; auto& w = a ? m->items : lo->items; std::vector<i64> g; auto i = x.items_begin(); for (size_t j = 0; j < w.size(); ++j, ++i) g.push_back(EL::get(*i)); auto sg = g, sw = w; std::sort(sg.begin(), sg.end()); std::sort(sw.begin(), sw.end()); ok(sg == sw, "split-partition"); if (!bad) w = g; }
            break; }
        case 12: { op = "adopt";
            bool same = r.coin(); Slot& src = same ? s : other;
            std::vector<MNode*> sall; src.m->preorder(sall); MNode* om = r.pick(sall); std::vector<MNode*> sub; om->preorder(sub); if (sub.size() > 25) return;
            auto cp = om->clone(); CS os = at(src, om);
            if (m->kids.empty() && !m->items.empty()) { ok(n.adopt(os, n.end()) == n.end(), "refused-adopt"); c.cover("refused-adopts"); break; }
            if (r.chance(.1)) { S x = n; if (!invalid_before(x)) break; ok(n.adopt(os, x) == n.end(), "refused-adopt"); c.cover("refused-adopts"); break; }
            S got = n.adopt(os, child_at(n, pos));
            if (same && m->within(om)) c.cover("adopted-own-ancestor"); else if (same) c.cover("adopted-own-part"); else c.cover("adopted-from-other-tree");
            cp->parent = m; i64 d = cp->data; m->kids.insert(m->kids.begin() + pos, std::move(cp));
            ok(EN::get(*got) == d && got.parent() == n, "adopt-returns-node");
            // values need not be unique for the tree, but the oracles here want them to be
            std::vector<MNode*> nn; m->kids[pos]->preorder(nn); for (auto* q : nn) { q->data = serial++; *at(s, q) = EN::make(q->data); }
            break; }
        case 13: { op = "copy";
            auto nt = std::make_unique<T>(static_cast<const T&>(*other.t)); ok(*nt == *other.t && !(*nt != *other.t), "copy-equal"); s.m = other.m->clone(); s.handles.clear(); s.t = std::move(nt); break; }
        case 14: { op = "copy-subtree";
            std::vector<MNode*> sall; other.m->preorder(sall); MNode* om = r.pick(sall); CS os = at(other, om);
            auto nt = std::make_unique<T>(os); s.m = om->clone(); s.handles.clear(); s.t = std::move(nt); if (om->parent) c.cover("subtree-copied"); break; }
        case 15: { op = "move";
            auto nt = std::make_unique<T>(std::move(*s.t)); s.handles.clear();
            // the source is an empty tree, and usable
            Slot e; e.t = std::move(s.t); e.m = std::make_unique<MNode>(); s.t = std::move(nt);
            *e.t->root() = EN::make(0); verify(e); S ch = e.t->root().insert_child_node(EN::make(4)); ch.insert_item(EL::make(5)); auto k4 = std::make_unique<MNode>(); k4->data = 4; k4->parent = e.m.get(); k4->items = {5}; e.m->kids.push_back(std::move(k4)); verify(e);
            if (bad) e.t.release(); break; }
        case 16: { op = "build";
            std::vector<LI> v; std::vector<i64> w; size_t ct = r.below(6); for (size_t i = 0; i < ct; ++i) { w.push_back(serial); v.push_back(EL::make(serial++)); }
            s.t = std::make_unique<T>(v.begin(), v.end()); s.handles.clear(); s.m = std::make_unique<MNode>(); s.m->items = w; s.m->data = serial++; *s.t->root() = EN::make(s.m->data); break; }
        case 17: { op = "assign-values"; i64 v = serial++; m->data = v; *n = EN::make(v); if (MNode* l = pick_node(s, true, true)) { S ls = at(s, l); size_t p = r.below(l->items.size()); l->items[p] = serial; *item_at(ls, p) = EL::make(serial++); } break; }
        case 18: { op = "compare"; bool want = s.m->same(*other.m); ok((*s.t == *other.t) == want && (*s.t != *other.t) == !want && *s.t == *s.t, "equality");
            T cp(static_cast<const T&>(*s.t)); ok(cp == *s.t, "equality-of-copy"); Slot e; 
            // a single difference, of structure or of value, is noticed
            auto at_copy = [&](const MNode* q) { std::vector<size_t> path; for (; q->parent; q = q->parent) path.push_back(q->index()); S x = cp.root(); while (!path.empty()) { x = x.begin(); for (size_t i = 0; i < path.back(); ++i) ++x; path.pop_back(); } return x; };
            S x = at_copy(m); int w = r.below(4);
            if (w == 0) *x = EN::make(serial++); else if (w == 1 && m->kids.empty()) x.insert_item(EL::make(serial++)); else if (w == 2 && !m->kids.empty()) { x.erase(child_at(x, r.below(m->kids.size()))); } else x.insert_child_node(EN::make(serial++));
            ok(cp != *s.t && !(*s.t == cp), "inequality"); c.cover("inequalities"); break; }
        case 19: { op = "unconst"; const T& ct = *s.t; CS cs = ct.root(); S back = s.t->subtree(cs); ok(back == s.t->root(), "unconst"); ok(other.t->subtree(cs) == other.t->end(), "unconst-of-other-tree"); break; }
        }
        h = hcomb(h, k * 1000 + id % 997); h = hcomb(h, is * 64 + pos);
        trace += std::string(is ? "B." : "A.") + op + "(" + std::to_string(id) + "," + std::to_string(pos) + ");";
        c.note = std::string(EN::name()) + "/" + EL::name() + ": " + (trace.size() > 900 ? "..." + trace.substr(trace.size() - 900) : trace);
        c.cover(std::string("op-") + op);
    }

    void run() {
        life().alive.clear(); life().errors.clear();
        std::string trace; u64 h = 0;
        for (auto& s : pool) { s.t = std::make_unique<T>(); s.m = std::make_unique<MNode>(); s.m->data = serial++; *s.t->root() = EN::make(s.m->data); }
        op = "construction"; for (auto& s : pool) verify(s);
        int nops = r.coin() ? 4 + r.below(12) : 10 + r.below(50);
        int style = r.below(3); // grow mostly nodes, mostly items, or anything
        size_t maxn = 0;
        for (int i = 0; i < nops && !bad; ++i) {
            int k = r.chance(.6) ? (style == 0 ? r.below(6) : style == 1 ? (r.coin() ? 3 + r.below(3) : 11 * (r.coin() ? 1 : 0)) : r.below(13)) : r.below(20);
            step(k, trace, h);
            for (auto& s : pool) if (!bad) verify(s);
            if (!bad && r.chance(.4)) { op = "query"; queries(pool[r.below(2)]); }
            for (auto& s : pool) maxn = std::max(maxn, bad ? 0 : s.t->size());
        }
        c.maximum("nodes", maxn);
        if (bad) { for (auto& s : pool) s.t.release(); life().alive.clear(); life().errors.clear(); }
        pool.clear();
        if (!bad && (EN::tracked || EL::tracked)) { c.check(life().alive.empty(), "elements-leaked"); for (auto& e : life().errors) c.fail("lifetime", "at destruction: " + e); }
        c.nontrivial(h);
        if (c.want_sample()) c.sample(c.note);
    }
};
template <class NI, class LI> void history(Ctx& c) { Hist<NI, LI>(c).run(); }

// small trees of few different values: equal exactly if structure, values and items are
static void equality(Ctx& c) {
    Rng& r = c.rng; Tree<int, int> t[2]; MNode m[2]; u64 h = 0;
    int n = r.below(5), items = r.below(4); i64 vals[5]; for (auto& v : vals) v = r.below(2);
    for (int k = 0; k < 2; ++k) {
        *t[k].root() = 0;
        std::function<void(Subtree<int, int>, MNode*, int&)> grow = [&](Subtree<int, int> s, MNode* mn, int& left) {
            int kids = left ? r.below(left + 1) : 0; left -= kids;
            for (int i = 0; i < kids; ++i) { int v = r.chance(.8) ? 0 : 1; s.insert_child_node(v); mn->kids.push_back(std::make_unique<MNode>()); mn->kids.back()->data = v; }
            auto x = s.begin(); for (int i = 0; i < kids; ++i, ++x) grow(x, mn->kids[i].get(), left);
        };
        int left = n; grow(t[k].root(), &m[k], left);
        for (int i = 0; i < items; ++i) { auto s = t[k].root(); MNode* q = &m[k]; while (s.node_count()) { int a = r.below(s.node_count()); s = s.begin(); q = q->kids[a].get(); while (a--) ++s; } s.insert_item((int)vals[i]); q->items.push_back(vals[i]); }
        h = hcomb(h, t[k].size() * 10 + items);
    }
    bool want = m[0].same(m[1]);
    std::vector<i64> i0, i1; m[0].all_items(i0); m[1].all_items(i1);
    c.check((t[0] == t[1]) == want && (t[1] == t[0]) == want && (t[0] != t[1]) == !want, "equality", [&](auto& o) { o << "want " << want; });
    c.cover(want ? "equal-trees" : i0 == i1 && t[0].size() == t[1].size() ? "different-arrangements" : "different-trees");
    std::function<void(const MNode&)> hm = [&](const MNode& x) { h = hcomb(h, x.data + 10 * x.items.size() + 100 * x.kids.size()); for (auto& k : x.kids) hm(*k); };
    hm(m[0]); hm(m[1]); c.nontrivial(h);
}

// nothing stays allocated once the trees are gone
static void balance(Ctx& c) {
    u64 h = 0; i64 b0 = heap_bytes();
    {
        Tree<int, int> t; int n = 2 + c.rng.below(20);
        for (int i = 0; i < n; ++i) {
            int k = c.rng.below(7); h = hcomb(h, k);
            auto s = t.root(); while (s.node_count() > 0 && c.rng.chance(.7)) { int a = c.rng.below(s.node_count()); s = s.begin(); while (a--) ++s; }
            if (k <= 1) s.insert_child_node(i); else if (k == 2) s.insert_item(i); else if (k == 3 && s.node_count()) s.erase(s.begin());
            else if (k == 4) s.flatten(); else if (k == 5) { Tree<int, int> u(t); Tree<int, int> v(std::move(u)); if (t.size() < 30) s.adopt(v.root(), s.end()); } else if (k == 6 && s.item_count()) { auto p = s.find_parent(s.items_begin()); p.erase(p.items_begin()); }
        }
        h = hcomb(h, t.size());
    }
    c.check(heap_bytes() == b0, "heap-leak", [&](auto& o) { o << heap_bytes() - b0; });
    c.nontrivial(h); c.cover("balance-histories");
}

TSUITE("history/tracked", 3000, 60000, history<Tracked, Tracked>)
TSUITE("history/int", 4000, 80000, history<int, int>)
TSUITE("history/int-tracked", 2000, 40000, history<int, Tracked>)
TSUITE("history/string", 2000, 40000, history<std::string, std::string>)
TSUITE("equality/int", 4000, 100000, equality)
TSUITE("balance/int", 2000, 60000, balance)
