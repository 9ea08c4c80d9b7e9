// Faults on demand: the n-th allocation, or the n-th construction or assignment of an element, from now on throws.
#pragma once
#include "vh.h"
#include <new>
namespace vh {
struct Faults { long alloc = 0, elem = 0; u64 thrown_alloc = 0, thrown_elem = 0; };
inline VH_TLS Faults g_faults;
extern VH_TLS i64 g_heap;  // blocks that are allocated
struct ElementFault {};
inline void elem_op() { if (g_faults.elem > 0 && --g_faults.elem == 0) { ++g_faults.thrown_elem; throw ElementFault(); } }
// an element which can fail on anything but moves, owns memory, and whose life is watched
struct Lives { std::set<const void*> alive; u64 errors = 0; };
inline Lives& lives() { static VH_TLS Lives l; return l; }
struct Frail {
    int* v; const Frail* self;
    void born() { self = this; long a = g_faults.alloc; g_faults.alloc = 0; if (!lives().alive.insert(this).second) ++lives().errors; g_faults.alloc = a; }
    void look() const { if (self != this || !lives().alive.count(this)) ++lives().errors; }
    Frail() : v((elem_op(), new int(0))) { born(); }
    Frail(int x) : v((elem_op(), new int(x))) { born(); }
    Frail(const Frail& o) : v((elem_op(), o.look(), new int(o.get()))) { born(); }
    Frail(Frail&& o) noexcept : v(o.v) { o.look(); o.v = nullptr; born(); }
    Frail& operator=(const Frail& o) { look(); o.look(); elem_op(); int* n = new int(o.get()); delete v; v = n; return *this; }
    Frail& operator=(Frail&& o) noexcept { look(); o.look(); std::swap(v, o.v); return *this; }
    ~Frail() { look(); delete v; lives().alive.erase(this); self = nullptr; }
    int get() const { look(); return v ? *v : -1; }
    bool operator==(const Frail& o) const { return get() == o.get(); }
    bool operator!=(const Frail& o) const { return !(*this == o); }
};
}
