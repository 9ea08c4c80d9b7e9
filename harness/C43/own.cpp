// Memory of the objects that own some: histories of construction, copying, moving, assignment and use, after which every byte must be
// released; and containers of elements with a large alignment, each of which checks where it lives.
#include "tracked.h"
#include "heapcount.inc"
#include <memory>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/LUDecomp.h>
#include <geomc/linalg/Vec.h>
#include <geomc/function/Raster.h>
#include <geomc/function/Path.h>
#include <geomc/function/PerlinNoise.h>
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/shape/BinLatticePartition.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
#include <geomc/SmallStorage.h>
#include <geomc/Deque.h>
#include <geomc/Storage.h>
#include <geomc/Tree.h>
using namespace geom; using namespace vh;

static volatile double g_sink;
// up to four objects; `make` builds one, `use` works with one and another, `fits` tells whether one may be assigned to another
template <class O, class Make, class Use, class Fits> void balance(Ctx& c, Make make, Use use, Fits fits) {
    u64 copies = 0, assigns = 0, moves = 0, uses = 0; i64 b0 = 0, b1 = 0; u64 start = c.rng.next();
    for (int pass = 0; pass < 2; ++pass) { // the first one lets whatever is made once and kept be made
        b0 = heap_bytes(); copies = assigns = moves = uses = 0;
        { Rng r(start); std::unique_ptr<O> s[4]; for (auto& x : s) x = make(r); int n = 4 + (int)r.below(30);
          for (int i = 0; i < n; ++i) { auto& a = s[r.below(4)]; auto& b = s[r.below(4)];
            switch (r.below(8)) {
                case 0: a = make(r); break;
                case 1: if constexpr (std::is_copy_constructible_v<O>) { a = std::make_unique<O>(*b); ++copies; } break;
                case 2: if constexpr (std::is_move_constructible_v<O>) { auto n = std::make_unique<O>(std::move(*b)); b = make(r); a = std::move(n); ++moves; } break;
                case 3: case 4: if constexpr (std::is_copy_assignable_v<O>) if (fits(*a, *b)) { const O& q = *b; *a = q; ++assigns; } break;
                case 5: if constexpr (std::is_move_assignable_v<O>) if (&a != &b && fits(*a, *b)) { *a = std::move(*b); b = make(r); ++moves; } break;
                default: use(*a, *b, r); ++uses; break;
            } } }
        b1 = heap_bytes();
    }
    c.check(b1 == b0, "heap-leak", [&](auto& o) { o << (b1 - b0) << " bytes not released"; });
    c.cover("copies", copies); c.cover("moves", moves); c.cover("assignments", assigns); c.cover("uses", uses); c.nontrivial(start);
}
auto always = [](const auto&, const auto&) { return true; };

template <class M> void mtx(Ctx& c) {
    auto make = [](Rng& r) { index_t n = 1 + r.below(4); auto m = std::make_unique<M>(n, n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) (*m)(i, j) = (double)r.range(-4, 4); return m; };
    auto use = [](M& a, M& b, Rng& r) { switch (r.below(6)) {
        case 0: if (a.cols() == b.rows()) { auto p = a * b; g_sink = p(0, 0); M q = a * b; g_sink = q(0, 0); } break;
        case 1: { auto t = transpose(a); g_sink = t(0, 0); break; }
        case 2: { M v(a.rows(), a.cols()); bool ok = inv(&v, a); g_sink = ok; break; }
        case 3: if (a.rows() == b.rows() && a.cols() == b.cols()) { auto s = a + b; g_sink = s(0, 0); mul(&a, a, b); } break;
        case 4: try { M w(a.rows() + 1, a.cols()); mul(&w, a, b); } catch (DimensionMismatchException&) {} break;
        default: { M x(a); x.set_identity(); g_sink = x(0, 0) + (a == b); break; } } };
    balance<M>(c, make, use, [](const M& a, const M& b) { return a.rows() == b.rows() && a.cols() == b.cols(); });
}
TSUITE("leak/matrix", 1500, 40000, (mtx<SimpleMatrix<double, 0, 0>>))
TSUITE("leak/matrix-shared", 1500, 40000, (mtx<SimpleMatrix<double, 0, 0, COL_MAJOR, STORAGE_SHARED>>))
TSUITE("leak/matrix-rows", 1500, 40000, (mtx<SimpleMatrix<double, 0, 0, COL_MAJOR>>))
void diag(Ctx& c) {
    typedef DiagMatrix<double, 0, 0> D; auto make = [](Rng& r) { index_t n = 1 + r.below(4); auto m = std::make_unique<D>(n, n); for (index_t i = 0; i < n; ++i) m->diagonal(i) = (double)r.range(1, 4); return m; };
    auto use = [](D& a, D& b, Rng& r) { if (a.rows() != b.rows()) return; switch (r.below(3)) { case 0: { auto p = a * b; g_sink = p(0, 0); break; } case 1: a *= b; break; default: { D v(a.rows(), a.cols()); bool ok = inv(&v, a); g_sink = ok; } } };
    balance<D>(c, make, use, [](const D& a, const D& b) { return a.rows() == b.rows(); });
}
TSUITE("leak/diagonal", 1500, 40000, diag)
void perm(Ctx& c) {
    typedef PermutationMatrix<0> P; auto make = [](Rng& r) { index_t n = 1 + r.below(5); auto m = std::make_unique<P>(n); for (int i = 0; i < 4; ++i) m->swap_rows(r.below(n), r.below(n)); return m; };
    auto use = [](P& a, P& b, Rng& r) { g_sink = a.sign(); if (r.coin()) a.transpose(); if (a.rows() == b.rows()) { auto p = a * b; g_sink = p(0, 0); SimpleMatrix<double, 0, 0> d(a.rows(), a.rows()); mtxcopy(&d, a); auto q = b * d; g_sink = q(0, 0); } };
    balance<P>(c, make, use, [](const P& a, const P& b) { return a.rows() == b.rows(); });
}
TSUITE("leak/permutation", 1500, 40000, perm)
void raster(Ctx& c) {
    typedef Raster<double, double, 2, 3> R; auto make = [](Rng& r) { Vec<index_t, 2> d(1 + r.below(5), 1 + r.below(5)); return r.coin() ? std::make_unique<R>(d) : std::make_unique<R>(d, Rect<double, 2>(Vec<double, 2>(0, 0), Vec<double, 2>(1 + r.unit(), 2))); };
    auto use = [](R& a, R&, Rng& r) { Vec<double, 2> p(r.uniform(-3, 9), r.uniform(-3, 9)); auto v = a.template sample<EDGE_CLAMP, INTERP_CUBIC>(p); g_sink = v[0]; a.set(Vec<index_t, 2>(0, 0), Vec<double, 3>(1, 2, 3)); };
    balance<R>(c, make, use, always);
}
TSUITE("leak/raster", 1500, 40000, raster)
void path(Ctx& c) {
    typedef Path<double, 3> P; auto make = [](Rng& r) { auto p = std::make_unique<P>(); for (int i = 1 + (int)r.below(5); i > 0; --i) p->appendKnot(Vec<double, 3>(r.unit(), r.unit(), 1), Vec<double, 3>(0, r.unit(), 0)); return p; };
    balance<P>(c, make, [](P& a, P&, Rng& r) { g_sink = a.eval(r.uniform(-1, 6))[0]; a.appendKnot(Vec<double, 3>(1, 2, 3), Vec<double, 3>(1, 0, 0)); }, always);
}
TSUITE("leak/path", 1500, 40000, path)
template <index_t N> void perlin(Ctx& c) {
    typedef PerlinNoise<double, N> P; LCRand g(c.rng.next()); typename PointType<double, N>::point_t x; PointType<double, N>::iterator(x)[0] = c.rng.uniform(-20, 20);
    balance<P>(c, [&](Rng&) { return std::make_unique<P>(&g); }, [&](P& a, P&, Rng&) { g_sink = a.eval(x) + a.gradient(x).first; }, always);
}
TSUITE("leak/perlin-1", 60, 2000, perlin<1>)
TSUITE("leak/perlin-3", 60, 2000, perlin<3>)
template <index_t B> void harm(Ctx& c) {
    typedef SphericalHarmonics<double, B> S; typedef ZonalHarmonics<double, B> Z; auto make = [](Rng& r) { auto s = [&] { if constexpr (B == 0) return std::make_unique<S>((index_t)(1 + r.below(5))); else return std::make_unique<S>(); }(); for (index_t i = 0; i < s->size(); ++i) s->get()[i] = r.unit(); return s; };
    auto use = [](S& a, S& b, Rng& r) { Vec<double, 3> u(r.gauss(), r.gauss(), 1 + r.unit()); switch (r.below(4)) { case 0: g_sink = a.eval(u.unit()); break; case 1: { Z z(a); S d(z, u.unit()); g_sink = d.get()[0]; break; } case 2: a.convolve(Z(b)); break; default: { S n = a; n += b; g_sink = n.get()[0] + n.dot(a); } } };
    balance<S>(c, make, use, [](const S& a, const S& b) { return a.bands() == b.bands(); });
}
TSUITE("leak/harmonics-dynamic", 800, 20000, harm<0>)
TSUITE("leak/harmonics-4", 800, 20000, harm<4>)
void lattice(Ctx& c) {
    typedef BinLatticePartition<double, 2, std::string> B; typedef Vec<double, 2> V; auto pt = [](Rng& r) { return V(r.range(-6, 6) * .5, r.range(-6, 6) * .5); };
    auto make = [&](Rng& r) { auto b = std::make_unique<B>(1 + r.below(3)); for (int i = (int)r.below(9); i > 0; --i) b->insert(pt(r), std::string(40, 'x')); return b; };
    auto use = [&](B& a, B&, Rng& r) { a.insert(pt(r), "an item that does not fit into the string object"); double n = 0; V p = pt(r); for (auto i = a.begin(); i != a.end(); ++i) n += 1; g_sink = n; if (n > 6) a.erase(a.begin()); (void)p; };
    balance<B>(c, make, use, always);
}
TSUITE("leak/bin-lattice", 1500, 40000, lattice)
template <class G> void gens(Ctx& c) { balance<G>(c, [](Rng& r) { return std::make_unique<G>(r.next()); }, [](G& g, G&, Rng& r) { Sampler<double> s(&g); g_sink = s.template unit<3>()[0] + g.template rand<double>(); std::vector<int> o(5 + r.below(9)); permute(o, g); g_sink = g.template rand<bool>(); }, always); }
TSUITE("leak/mtrand", 300, 4000, gens<MTRand>)
TSUITE("leak/lcrand", 300, 4000, gens<LCRand>)
TSUITE("leak/xoshiro", 300, 4000, gens<XoshiroRand>)

// ---- elements that need more than the default alignment
static u64 g_misplaced = 0, g_placed = 0;
template <size_t A> struct alignas(A) Al { u64 v; Al(u64 v = 0) : v(v) { look(); } Al(const Al& o) : v(o.v) { look(); } Al& operator=(const Al& o) { v = o.v; look(); return *this; } ~Al() { look(); } void look() const { volatile uintptr_t p = (uintptr_t)this; g_misplaced += p % A != 0; ++g_placed; } bool operator==(const Al& o) const { return v == o.v; } };
template <class C, class Push> void aligned(Ctx& c, Push push) {
    g_misplaced = g_placed = 0; u64 start = c.rng.next(); Rng r(start);
    { char* odd = new char[1 + r.below(70)]; std::unique_ptr<C> s[3]; for (auto& x : s) x = std::make_unique<C>(); C local; std::array<C, 2> arr; int n = 5 + (int)r.below(40);
      for (int i = 0; i < n; ++i) { C& a = r.chance(.2) ? local : r.chance(.2) ? arr[r.below(2)] : *s[r.below(3)]; C& b = *s[r.below(3)]; switch (r.below(7)) { case 0: a = b; break; case 1: { C t(a); push(t, r); if (r.coin()) a = std::move(t); break; } case 2: s[r.below(3)] = std::make_unique<C>(b); break; default: push(a, r); } }
      delete[] odd; }
    c.check(g_misplaced == 0, "element-misaligned", [&](auto& o) { o << g_misplaced << " of " << g_placed << " looks"; }); c.cover("aligned-looks", g_placed); c.nontrivial(start);
}
auto vec_push = [](auto& s, Rng& r) { if (s.size() > 12 || (s.size() && r.chance(.25))) s.pop_back(); else s.push_back(r.next()); };
template <size_t A, int N> void al_small(Ctx& c) { aligned<SmallStorage<Al<A>, N>>(c, vec_push); }
template <size_t A, int N> void al_deque(Ctx& c) { aligned<Deque<Al<A>, N>>(c, [](auto& s, Rng& r) { if (s.size() && r.chance(.3)) s.pop_front(); else if (r.coin()) s.push_front(r.next()); else vec_push(s, r); }); }
TSUITE("aligned/small-32-3", 600, 20000, (al_small<32, 3>))
TSUITE("aligned/small-64-1", 600, 20000, (al_small<64, 1>))
TSUITE("aligned/deque-32-3", 600, 20000, (al_deque<32, 3>))
TSUITE("aligned/deque-64-0", 600, 20000, (al_deque<64, 0>))
template <size_t A> void al_store(Ctx& c) {
    g_misplaced = g_placed = 0; index_t n = 1 + (index_t)c.rng.below(6); { Storage<Al<A>, 0> a(n); UniqueStorage<Al<A>, 0> b(n), d(b); UniqueStorage<Al<A>, 3> e(3); SizedStorage<Al<A>, 2> f(2); b = d; Al<A> src[6]; UniqueStorage<Al<A>, 0> g(n, src); g = b; GenericStorage<Al<A>, 0, STORAGE_UNIQUE> h(n); GenericStorage<Al<A>, 0, STORAGE_SHARED> k(n); for (index_t i = 0; i < n; ++i) { a[i].look(); b[i].look(); g[i].look(); h[i].look(); k[i].look(); } }
    c.check(g_misplaced == 0, "element-misaligned"); c.cover("aligned-looks", g_placed); c.nontrivial(n);
}
TSUITE("aligned/storage-32", 100, 2000, al_store<32>)
TSUITE("aligned/storage-64", 100, 2000, al_store<64>)
template <size_t A> void al_tree(Ctx& c) {
    g_misplaced = g_placed = 0; int n = 3 + (int)c.rng.below(20); u64 h = n; { Tree<Al<A>, Al<A>> t; for (int i = 0; i < n; ++i) { auto r = t.root(); while (r.node_count() > 0 && c.rng.chance(.6)) r = r.begin(); if (c.rng.coin()) r.insert_child_node(Al<A>(i)); else if (r.node_count() == 0) r.insert_item(Al<A>(i)); h = hcomb(h, r.item_count()); } }
    c.check(g_misplaced == 0, "element-misaligned"); c.cover("aligned-looks", g_placed); c.nontrivial(h);
}
TSUITE("aligned/tree-32", 300, 6000, al_tree<32>)
