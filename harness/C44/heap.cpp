#include "faults.h"
#include <cstdlib>
namespace vh { VH_TLS i64 g_heap = 0; }
static void* get(size_t n, size_t al) {
    using namespace vh; if (g_faults.alloc > 0 && --g_faults.alloc == 0) { ++g_faults.thrown_alloc; throw std::bad_alloc(); }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_heap; return p;
}
static void put(void* p) noexcept { if (p) { --vh::g_heap; free(p); } }
void* operator new(size_t n) { return get(n, 0); }
void* operator new[](size_t n) { return get(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
