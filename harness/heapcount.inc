// include in exactly one TU of a harness that uses heap_bytes()
#ifdef VH_VARIANT_REL
#include <malloc.h>
namespace vh { i64 g_heap_bytes = 0; }
static void* vh_alloc(size_t n, size_t al) {
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    vh::g_heap_bytes += malloc_usable_size(p);
    return p;
}
static void vh_free(void* p) noexcept { if (p) { vh::g_heap_bytes -= malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return vh_alloc(n, 0); }
void* operator new[](size_t n) { return vh_alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return vh_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return vh_alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { vh_free(p); }
void operator delete[](void* p) noexcept { vh_free(p); }
void operator delete(void* p, size_t) noexcept { vh_free(p); }
void operator delete[](void* p, size_t) noexcept { vh_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { vh_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vh_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vh_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vh_free(p); }
#endif
