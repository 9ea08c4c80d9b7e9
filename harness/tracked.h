// Element types whose lifetimes are monitored, and a heap balance monitor.
#pragma once
#include "vh.h"
#include <new>
#if defined(VH_VARIANT_SAN) || defined(VH_VARIANT_UB)
#include <sanitizer/allocator_interface.h>
#endif

namespace vh {

#if defined(VH_VARIANT_SAN) || defined(VH_VARIANT_UB)
inline i64 heap_bytes() { return (i64)__sanitizer_get_current_allocated_bytes(); }
#elif !defined(VH_VARIANT_REL)
inline i64 heap_bytes() { return 0; }
#else
extern i64 g_heap_bytes;
inline i64 heap_bytes() { return g_heap_bytes; }
#endif

// Monitors construction and destruction: one object per address, alive exactly between the two.
struct Life {
    std::set<const void*> alive;
    std::vector<std::string> errors;
    u64 constructed = 0, destroyed = 0, moved = 0, copied = 0;
    void err(const char* e) { if (errors.size() < 4) errors.push_back(e); else errors.resize(4); }
    void born(const void* p) { constructed++; if (!alive.insert(p).second) err("constructed over a live element"); }
    void dead(const void* p) { destroyed++; if (!alive.erase(p)) err("destroyed an element that is not alive"); }
    void use(const void* p, const char* what) { if (!alive.count(p)) err(what); }
};
inline Life& life() { static VH_TLS Life l; return l; }

template <size_t Align = alignof(void*)>
struct alignas(Align) TrackedT {
    i64 v;
    TrackedT* self;
    TrackedT() : v(0), self(this) { life().born(this); }
    TrackedT(i64 x) : v(x), self(this) { life().born(this); }
    TrackedT(const TrackedT& o) : v(o.v), self(this) { life().use(&o, "copied from a dead element"); o.ok(); life().copied++; life().born(this); }
    TrackedT(TrackedT&& o) : v(o.v), self(this) { life().use(&o, "moved from a dead element"); o.ok(); o.v = -77777; life().moved++; life().born(this); }
    TrackedT& operator=(const TrackedT& o) { life().use(this, "assigned to a dead element"); life().use(&o, "assigned from a dead element"); ok(); o.ok(); v = o.v; return *this; }
    TrackedT& operator=(TrackedT&& o) { life().use(this, "move-assigned to a dead element"); life().use(&o, "move-assigned from a dead element"); ok(); o.ok(); i64 t = o.v; if (&o != this) o.v = -77777; v = t; return *this; }
    ~TrackedT() { ok(); life().dead(this); self = nullptr; v = -99999; }
    void ok() const { if (self != this) life().err("element bytes were copied without its constructor"); }
    bool operator==(const TrackedT& o) const { return v == o.v; }
    bool operator!=(const TrackedT& o) const { return v != o.v; }
};
typedef TrackedT<> Tracked;
typedef TrackedT<64> TrackedWide;

template <class T> struct Elem;
template <size_t A> struct Elem<TrackedT<A>> {
    static TrackedT<A> make(i64 x) { return TrackedT<A>(x); }
    static i64 get(const TrackedT<A>& t) { life().use(&t, "read a dead element"); t.ok(); return t.v; }
    static const char* name() { return A == 64 ? "wide-tracked" : "tracked"; }
    static constexpr bool tracked = true;
    static constexpr bool heapfree = true;
};
template <> struct Elem<int> {
    static int make(i64 x) { return (int)x; }
    static i64 get(int x) { return x; }
    static const char* name() { return "int"; }
    static constexpr bool tracked = false;
    static constexpr bool heapfree = true;
};
template <> struct Elem<std::string> {
    static std::string make(i64 x) { return "a string long enough to live on the heap " + std::to_string(x); }
    static i64 get(const std::string& s) { return s.size() > 41 ? atoll(s.c_str() + 41) : -1; }
    static const char* name() { return "string"; }
    static constexpr bool tracked = false;
    static constexpr bool heapfree = false;
};

} // namespace vh
