From 4db8237dcbb3051ee21e947e61f9f8c07b063cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 001/153] fix: SmallStorage growth moved the requested count of
 items instead of the live ones

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 0adb2ce..e79e776 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -51,7 +51,7 @@ private:
             size_t new_capacity = std::max(n, _capacity * 2);
             storage_t* new_data = new storage_t[new_capacity];
             T* src = begin();
-            for (size_t i = 0; i < n; ++i) {
+            for (size_t i = 0; i < _size; ++i) {
                 new (new_data + i) T{std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
-- 
2.43.0


From 64497b0971d7c6a2f3a29f4fcb948b027cccb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 002/153] fix: SmallStorage move construction left destroyed
 items alive in the source

---
 geomc/SmallStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index e79e776..6003f32 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -149,6 +149,7 @@ public:
                 new (_data + i) T {std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
+            other._size = 0; // the source items are gone
         } else {
             // array was stolen.
             // empty the other container
-- 
2.43.0


From 982ad5a7e8ee9ee78c31426dcb681d291c48f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 003/153] fix: SmallStorage self-move-assignment destroyed its
 contents

---
 geomc/SmallStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 6003f32..ae17cfe 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -169,6 +169,7 @@ public:
     
     /// Move the contents of `other` into this array.
     SmallStorage<T,N>& operator=(SmallStorage<T,N>&& other) {
+        if (&other == this) return *this; // no self-assign
         _destroy(_data, _size);
         // if we have allocated storage, free it. we're going to clobber
         if (_capacity > N) delete [] _data;
-- 
2.43.0


From e1200ab9530db5175a42c490be10452fc217db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 004/153] fix: SmallStorage push of one of its own elements
 read it after growth destroyed it

---
 geomc/SmallStorage.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index ae17cfe..a21cd0a 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -235,7 +235,8 @@ public:
     
     /// Add a copy of the given item to the end of the array, increasing its size by 1.
     T& push_back(const T& item) {
-        _ensure_capacity(_size + 1);
+        // `item` may be an element of this array, which growing would destroy
+        if (_size == _capacity) return emplace_back(T{item});
         T* place = reinterpret_cast<T*>(_data + _size);
         new (place) T {item};
         _size += 1;
@@ -245,9 +246,15 @@ public:
     /// Construct a new item at the end of the array from the given constructor arguments.
     template <typename... Args>
     T& emplace_back(Args&&... args) {
-        _ensure_capacity(_size + 1);
-        T* place = reinterpret_cast<T*>(_data + _size);
-        new (place) T {std::forward<Args>(args)...};
+        T* place;
+        if (_size == _capacity) {
+            // `args` may refer to an element of this array, which growing would destroy
+            T item {std::forward<Args>(args)...};
+            _ensure_capacity(_size + 1);
+            place = new (_data + _size) T {std::move(item)};
+        } else {
+            place = new (_data + _size) T {std::forward<Args>(args)...};
+        }
         _size += 1;
         return *place;
     }
-- 
2.43.0


From cc7e532f1d93d5149739056bd4863754791159eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 005/153] fix: Deque copy construction used the static buffer
 with a larger capacity

---
 geomc/Deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 928156e..58481f6 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -89,7 +89,7 @@ public:
     
     /// Construct a new circular buffer containing copies of all the items in `other`.
     Deque(const Deque<T,N>& other):
-            _data((other._size > N) ? (new storage_t[other._capacity]) : _buf),
+            _data((other._capacity > N) ? (new storage_t[other._capacity]) : _buf),
             _capacity(std::max(other._capacity, N)),
             _head(0),
             _size(other._size)
-- 
2.43.0


From 374fdc996ccbfee03c3be3ec201c9c0d4432457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 006/153] fix: Deque self-move-assignment moved from destroyed
 items

---
 geomc/Deque.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 58481f6..6298d91 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -165,6 +165,7 @@ public:
     
     /// Move the contents of `other` to this buffer
     Deque& operator=(Deque&& other) {
+        if (this == &other) return *this; // no self-move
         // destroy all our stuff
         for (index_t i = 0; i < _size; ++i) {
             item(i)->~T();
-- 
2.43.0


From d859e6ac8503293e44fd661d1ba82149654c086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 007/153] fix: Deque push of one of its own items read it after
 growth destroyed it

---
 geomc/Deque.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 6298d91..2154860 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -262,7 +262,12 @@ public:
     /// Add an element to the end of the buffer.
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_back(U&& t) {
-        reserve(_size + 1);
+        if (_size == _capacity) {
+            // `t` may be one of our own items, which growing would destroy
+            T tmp(std::forward<U>(t));
+            reserve(_size + 1);
+            return push_back(std::move(tmp));
+        }
         T* p = item(_size);
         // placement new, using move semantics if applicable:
         new (p) T(std::forward<U>(t));
@@ -278,7 +283,12 @@ public:
      */
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_front(U&& t) {
-        reserve(_size + 1);
+        if (_size == _capacity) {
+            // `t` may be one of our own items, which growing would destroy
+            T tmp(std::forward<U>(t));
+            reserve(_size + 1);
+            return push_front(std::move(tmp));
+        }
         const index_t n = capacity();
         _head = (_head + n - 1) % n;
         T* place = get() + _head;
-- 
2.43.0


From 81a95aa21c7e2d9c569475dab318e4c63550b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 008/153] fix: Deque comparison did not accept const operands

---
 geomc/Deque.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 2154860..4566177 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -232,7 +232,7 @@ public:
      *
      * Two Deques are equal iff they contain equal elements in equal order.
      */
-    bool operator==(const Deque<T, N>& other) {
+    bool operator==(const Deque<T, N>& other) const {
         if (this == &other)       return true;  // literally the same object
         if (_size != other._size) return false; // different number of items; unequal
         for (index_t i = 0; i < _size; ++i) {
@@ -242,7 +242,7 @@ public:
     }
     
     /// Inequality operator.
-    bool operator!=(const Deque<T, N>& other) {
+    bool operator!=(const Deque<T, N>& other) const {
         return not ((*this) == other);
     }
     
-- 
2.43.0


From 824cbb9fb2b9786da1fecccfba8e3f7807fe8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 009/153] fix: UniqueStorage self-move-assignment freed its
 array

---
 geomc/Storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index c0d7be2..24d2ad0 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -283,6 +283,7 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
 
 #if __cplusplus >= 201103L
     UniqueStorage& operator=(UniqueStorage<T,0>&& other) {
+        if (&other == this) return *this;
         if (data) delete[] data;
         data = other.data;
         sz = other.sz;
-- 
2.43.0


From e8f920c37b745d7e4eb5d02103e56de8cdee0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 010/153] fix: shared dynamic GenericStorage could not be built
 from an initializer list

---
 geomc/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index 24d2ad0..ca3c6a0 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -406,7 +406,7 @@ struct GenericStorage : public Storage<T,N> {
     GenericStorage(index_t n):type(n) {}
     
     GenericStorage(std::initializer_list<T> list):type(list.size()) {
-        std::copy(list.begin(), list.end(), type::data);
+        std::copy(list.begin(), list.end(), type::get());
     }
 
 #ifdef PARSING_DOXYGEN
-- 
2.43.0


From ec548d3c10b2742f36525481a50c334be1645670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 011/153] fix: headers used std::optional and std::ostream
 without including them

---
 geomc/Deque.h                            | 1 +
 geomc/SmallStorage.h                     | 1 +
 geomc/function/functiondetail/DualImpl.h | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 4566177..3b66c9c 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -1,3 +1,4 @@
+#include <optional>
 #include <type_traits>
 #include <utility>
 #include <geomc/Storage.h>
diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index a21cd0a..8faf144 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <optional>
 #include <geomc/geomc_defs.h>
 
 namespace geom {
diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 0f04048..ccfb42f 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cmath>
+#include <ostream>
 #include <geomc/geomc_defs.h>
 
 
-- 
2.43.0


From 512f16c5f3aa6fef1b05a359dd33693c52130ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 012/153] fix: storage aliasing test missed partial overlap and
 did not accept a vector and a matrix

---
 geomc/linalg/Matrix.h                     | 28 +++++++++++++++++++----
 geomc/linalg/mtxtypes/DiagMatrix.h        |  2 +-
 geomc/linalg/mtxtypes/PermutationMatrix.h |  2 +-
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 90a6336..48d9dfb 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -321,16 +321,34 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
         for (index_t j = 0; j < b.storage_token_count(); j++) {
             auto& tka = buf_a[i];
             auto& tkb = buf_b[j];
-            if (tka.lo < tkb.lo or tka.hi > tkb.hi) return false;
+            if (tka.lo < tkb.hi and tkb.lo < tka.hi) return true;
         }
     }
     
-    return true;
+    return false;
+}
+
+template <typename T, index_t N, typename U, index_t M>
+inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<U,M>& b) {
+    storage_token_t ta = {a.begin(), a.end()};
+    storage_token_t tb = {b.begin(), b.end()};
+    return ta.lo < tb.hi and tb.lo < ta.hi;
+}
+
+template <typename T, index_t N, typename Mx>
+inline bool mtx_aliases_storage(const Vec<T,N>& v, const Mx& m) {
+    typename Mx::storagebuffer_t buf = m.get_storage_token_buffer();
+    m.get_storage_tokens(buf.get());
+    storage_token_t tv = {v.begin(), v.end()};
+    for (index_t i = 0; i < m.storage_token_count(); i++) {
+        if (tv.lo < buf[i].hi and buf[i].lo < tv.hi) return true;
+    }
+    return false;
 }
 
-template <typename T, index_t N>
-inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,N>& b) {
-    return a.begin() == b.begin();
+template <typename Mx, typename T, index_t N>
+inline bool mtx_aliases_storage(const Mx& m, const Vec<T,N>& v) {
+    return mtx_aliases_storage(v, m);
 }
 
 
diff --git a/geomc/linalg/mtxtypes/DiagMatrix.h b/geomc/linalg/mtxtypes/DiagMatrix.h
index db323e5..4b1fbf6 100644
--- a/geomc/linalg/mtxtypes/DiagMatrix.h
+++ b/geomc/linalg/mtxtypes/DiagMatrix.h
@@ -160,7 +160,7 @@ public:
     
     inline void get_storage_tokens(storage_token_t* buf) const {
         const T* p = data.get();
-        *buf = {p, p + rows()};
+        *buf = {p, p + diag};
     }
     
     constexpr index_t storage_token_count() const {
diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f066627..f83ad12 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -395,7 +395,7 @@ public:
     inline void get_storage_tokens(storage_token_t* buf) const {
         // currently, this kind of matrix owns all its memory. two matrices
         // cannot alias unless they are the same object.
-        *buf = {this, this};
+        *buf = {this, this + 1};
     }
     
     constexpr index_t storage_token_count() const {
-- 
2.43.0


From 1500f1841e513e03570690349a16cc72e9e415cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 013/153] fix: transpose into aliased storage transposed a
 second time from overwritten data

---
 geomc/linalg/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 48d9dfb..309f575 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -688,6 +688,7 @@ transpose(Md *into, const Mx &m) {
         return_t buf = detail::_ImplMtxInstance<return_t>::instance(m.cols(), m.rows());
         txpose_t::transpose(&buf, m);
         detail::_mtxcopy(into, buf);
+        return;
     }
 #endif
     txpose_t::transpose(into, m);
-- 
2.43.0


From 7d891fbe5a616fcbac9a0cef3425a2f74e10eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 014/153] fix: set_identity put ones off the diagonal of
 nonsquare matrices

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 0ab80ab..3dda3dc 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -500,9 +500,9 @@ public:
      */
     void set_identity() {
         set_zero();
-        T *last = data_end();
-        for (T *p = data_begin(); p < last; p += cols() + 1) {
-            *p = 1;
+        const index_t n = std::min(rows(), cols());
+        for (index_t i = 0; i < n; ++i) {
+            set(i, i, 1);
         }
     }
     
-- 
2.43.0


From 8c52ab0afe74b406fc41b9e7b5e91b8ac7bec851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 015/153] fix: products with diagonal matrices read the wrong
 operand, ran out of bounds when nonsquare, and did not compile for two
 diagonals

---
 geomc/linalg/mtxdetail/MatrixMult.h | 96 +++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 25 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 573c911..85b3da9 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -37,6 +37,24 @@ namespace detail {
         >::value \
     >::type
 
+// Likewise for diagonal matrices:
+template <typename Mt>
+struct _IsDiagOrPermute : public std::false_type {};
+
+template <typename T, index_t M, index_t N>
+struct _IsDiagOrPermute<geom::DiagMatrix<T,M,N>> : public std::true_type {};
+
+template <index_t N>
+struct _IsDiagOrPermute<geom::PermutationMatrix<N>> : public std::true_type {};
+
+#define REQUIRE_NONDIAG_MATRIX_T(Mt) \
+    typename std::enable_if< \
+        std::is_base_of< \
+            geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
+            Mt \
+        >::value and not _IsDiagOrPermute<Mt>::value \
+    >::type
+
 
 /************************************
  * Matrix mult implementations      *
@@ -84,7 +102,7 @@ public:
 
 // mtx * diag
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_NONDIAG_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
@@ -93,9 +111,16 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::DiagMatrix<T,M,N>& b) {
         const T* dp = b.diagonal_begin();
-        for (index_t c = 0; c < b.cols(); ++c, ++dp) {
+        const index_t diag = std::min(b.rows(), b.cols());
+        for (index_t c = 0; c < diag; ++c, ++dp) {
+            for (index_t r = 0; r < a.rows(); ++r) {
+                d->set(r,c, a(r,c) * (*dp));
+            }
+        }
+        // columns beyond the diagonal are zero
+        for (index_t c = diag; c < b.cols(); ++c) {
             for (index_t r = 0; r < a.rows(); ++r) {
-                d->set(r,c, (*dp) * a(r,c));
+                d->set(r,c, 0);
             }
         }
     }
@@ -104,7 +129,7 @@ public:
 
 // diag * mtx
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_NONDIAG_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
@@ -113,9 +138,16 @@ public:
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,M,N>& a, const Mat& b) {
         const T* dp = a.diagonal_begin();
-        for (index_t r = 0; r < b.rows(); ++r, ++dp) {
-            for (index_t c = 0; c < a.cols(); ++c) {
-                d->set(r,c, (*dp) * a(r,c));
+        const index_t diag = std::min(a.rows(), a.cols());
+        for (index_t r = 0; r < diag; ++r, ++dp) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                d->set(r,c, (*dp) * b(r,c));
+            }
+        }
+        // rows beyond the diagonal are zero
+        for (index_t r = diag; r < a.rows(); ++r) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                d->set(r,c, 0);
             }
         }
     }
@@ -125,47 +157,61 @@ public:
 // diag * diag
 template <typename T, index_t L, index_t M1, index_t M2, index_t N>
 class _ImplMtxMul<geom::DiagMatrix<T,L,M1>, geom::DiagMatrix<T,M2,N>, void> {
+    
+    typedef geom::DiagMatrix<T,L,M1> Ma;
+    typedef geom::DiagMatrix<T,M2,N> Mb;
+    
+    // number of diagonal elements which can be nonzero in the product
+    static index_t diagonal(const Ma& a, const Mb& b) {
+        return std::min(std::min(a.rows(), a.cols()), b.cols());
+    }
+    
 public:
     
     typedef geom::DiagMatrix<T,L,N> return_t;
     
     // diagonal destination matrix
     template <typename U, index_t I, index_t J>
-    static void mul(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+    static void mul(geom::DiagMatrix<U,I,J>* d, const Ma& a, const Mb& b) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        U* pc = d->diagonal_begin();
+        const index_t n = diagonal(a, b);
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb, ++pc) {
             *pc = (*pa) * (*pb);
         }
+        std::fill(pc, d->diagonal_end(), 0);
     }
     
     template <typename U, index_t I, index_t J>
-    static void mul_acc(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+    static void mul_acc(geom::DiagMatrix<U,I,J>* d, const Ma& a, const Mb& b) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        U* pc = d->diagonal_begin();
+        const index_t n = diagonal(a, b);
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb, ++pc) {
             *pc += (*pa) * (*pb);
         }
     }
     
     // arbitrary destination matrix
     template <typename Md>
-    static void mul(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+    static void mul(Md* d, const Ma& a, const Mb& b) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diagonal(a, b);
         d->set_zero();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb) {
             d->set(i, i, (*pa) * (*pb));
         }
     }
     
     template <typename Md>
-    static void mul_acc(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+    static void mul_acc(Md* d, const Ma& a, const Mb& b) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t n = diagonal(a, b);
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb) {
             d->set(i, i, (*d)(i,i) + (*pa) * (*pb));
         }
     }
-- 
2.43.0


From 79fa349ebde82ce75eab49efc2b3a9cf584a2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 016/153] fix: in-place product with a nonsquare diagonal
 matrix ran out of bounds; sum of partly dynamic matrices had the wrong type

---
 geomc/linalg/Matrix.h                     | 4 ++++
 geomc/linalg/mtxdetail/MatrixArithmetic.h | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 309f575..a990711 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -1070,6 +1070,10 @@ operator*=(Mx& m, const DiagMatrix<T,M,N>& d) {
     if ((Mx::COLDIM == 0 or M == 0) and (m.cols() != d.rows())) {
         throw DimensionMismatchException(m.rows(), m.cols(), d.rows(), d.cols());
     }
+    // `m` keeps its dimensions, so `d` must be square
+    if (d.rows() != d.cols()) {
+        throw NonsquareMatrixException(d.rows(), d.cols());
+    }
 #endif
     
     // diagonal matrixes don't care if they alias; there is
diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index da8a99f..4d4a905 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -24,7 +24,7 @@ struct _ImplMatrixAdd {
     
     //todo: should use decltype(Ma::elem_t + Mb::elem_t)
     typedef SimpleMatrix<typename Ma::elem_t, 
-                         Ma::ROWDIM * Mb::COLDIM == 0 ? 0 : Ma::ROWDIM, 
+                         Ma::ROWDIM * Mb::ROWDIM == 0 ? 0 : Ma::ROWDIM, 
                          Ma::COLDIM * Mb::COLDIM == 0 ? 0 : Ma::COLDIM>
             return_t;
     
-- 
2.43.0


From c8eaac7a2f8f2e5be85e32d1c8da4d344d494069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 017/153] fix: determinants and inverses: wrong diagonal
 indexing, and many instantiations did not compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 14 +++++++-------
 geomc/linalg/mtxdetail/MatrixInv.h | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fe052b9..176b9cb 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -86,7 +86,7 @@ inline T det3x3(
 /// Compute the 4x4 matrix determinant.
 template <typename T>
 T det4x4(const T m[16]) {
-    const detail::_m4x4<T>& v = *reinterpret_cast<detail::_m4x4<T>*>(m);
+    const detail::_m4x4<T>& v = *reinterpret_cast<const detail::_m4x4<T>*>(m);
     return 
         diff_of_products(
             v.a, det3x3(v.f, v.g, v.h,  v.j, v.k, v.l,  v.n, v.o, v.p),
@@ -121,7 +121,7 @@ T det_destructive(T* m, index_t n) {
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonals, if A is triangular
     for (index_t i = 0; i < n; ++i) {
-        d *= m[i * i];
+        d *= m[i * n + i];
     }
     return d;
 }
@@ -140,13 +140,13 @@ template <typename T>
 T detNxN(const T* m, index_t n) {
     bool odd;
     SmallStorage<T, 64> buf(m, n * n);
-    if (decomp_plu(buf.get(), n, n, nullptr, &odd) != 0) return 0;
+    if (decomp_plu<T>(buf.begin(), n, n, nullptr, &odd) != 0) return 0;
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonal elems, if A is triangular
     // and det(AB) = det(A) * det(B). So if M = LU,
     // because `L` has unit diagonal, det(M) is just the diagonal elements of `U`.
     for (index_t i = 0; i < n; ++i) {
-        d *= buf[i * i];
+        d *= buf[i * n + i];
     }
     return d;
 }
@@ -166,7 +166,7 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 inline T det(const SimpleMatrix<T, M, N, Lyt, P>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     if (M * N == 0 and m.rows() != m.cols()) return 0;
-    return det(m.data_begin(), m.rows());
+    return detNxN(m.data_begin(), m.rows());
 }
 
 // 2x2 matrix det
@@ -202,7 +202,7 @@ T det(const DiagMatrix<T,N,M>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     T d = 1;
     if (m.rows() != m.cols()) return 0;
-    for (T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
+    for (const T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
         d *= *a;
     }
     return d;
@@ -224,7 +224,7 @@ template <index_t N>
 inline index_t det(const PermutationMatrix<N>& m) {
     index_t n = m.rows();
     SmallStorage<index_t,(N > 32 ? N : 32)> p(m.getRowSources(), n);
-    return permutation_sign(p.get(), n);
+    return permutation_sign(p.begin(), n);
 }
 
 /// @} // ingroup matrix
diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 2aa16ee..976077c 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -270,7 +270,7 @@ struct _ImplMtxInvRaw<T,0> {
                 // make a buffer with the same layout as the output
                 static constexpr MatrixLayout Lyt = Md::Layout;
                 SmallStorage<T,64> buf(n * n); // try not to alloc
-                WrapperMatrix<T,0,0,Lyt> bmx(buf.get(), n, n);
+                WrapperMatrix<T,0,0,Lyt> bmx(buf.begin(), n, n);
                 detail::_mtxcopy(&bmx, m);
                 return geom::invNxN(into->data_begin(), bmx.data_begin(), n);
         }
@@ -378,7 +378,7 @@ public:
     template <typename Md>
     static bool inv(Md *into, const geom::DiagMatrix<T,M,N>& m) {
         into->set_zero(); // for newly allocated matrices, redundant. oh well.
-        T *p = m.diagonal_begin();
+        const T *p = m.diagonal_begin();
         for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
             T elem = *p;
             if (elem == 0) return false;
@@ -386,6 +386,19 @@ public:
         }
         return true;
     }
+    
+    // diagonal destination, which may be `m` itself
+    template <typename U, index_t J, index_t K>
+    static bool inv(geom::DiagMatrix<U,J,K> *into, const geom::DiagMatrix<T,M,N>& m) {
+        for (const T* p = m.diagonal_begin(); p != m.diagonal_end(); ++p) {
+            if (*p == 0) return false;
+        }
+        U* d = into->diagonal_begin();
+        for (const T* p = m.diagonal_begin(); p != m.diagonal_end(); ++p, ++d) {
+            *d = 1 / *p;
+        }
+        return true;
+    }
 };
 
 // inverse of permutation matrix is its transpose.
-- 
2.43.0


From 9027a7e6f57be08eda8a91095ae63d6d66c1cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 018/153] fix: permutation matrices: wrong sign, transposed
 dense product, map not reset to identity after application

---
 geomc/linalg/LUDecomp.h                   | 1 +
 geomc/linalg/mtxdetail/MatrixMult.h       | 5 +++--
 geomc/linalg/mtxtypes/PermutationMatrix.h | 8 ++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index 54689af..be07c12 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -62,6 +62,7 @@ void destructive_apply_permutation(index_t* p, T* A, index_t n, index_t m) {
             //     p[cur] = -(p[cur]);
             // }
         } while (next != i);
+        p[i] = i;
     }
 }
 
diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 85b3da9..5428a1a 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -378,13 +378,13 @@ public:
     typedef geom::PermutationMatrix<((M < N) ? M : N)> return_t;
     
     template <typename Md>
-    static void mul(Md* d, const Ma& a, const Ma& b) {
+    static void mul(Md* d, const Ma& a, const Mb& b) {
         const index_t* d_a = a.getRowDestinations();
         const index_t* d_b = b.getRowDestinations();
         
         d->set_zero();
         for (index_t i = 0; i < a.rows(); i++) {
-            d->set(i, d_a[d_b[i]], 1);
+            d->set(d_a[d_b[i]], i, 1);
         }
     }
     
@@ -404,6 +404,7 @@ public:
             d_rd[i] = s_b[s_a[i]];
             d_cd[i] = d_a[d_b[i]];
         }
+        d->_sign = 0; // not computed yet
     }
 };
 
diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f83ad12..7608f5d 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -155,9 +155,8 @@ public:
             for (index_t i = 0; i < n; i++) {
                 row_dst[row_src[i]] = i;
             }
-        } else {
-            return _sign;
         }
+        return _sign;
     }
     
     
@@ -333,6 +332,7 @@ public:
      * @param b A row index.
      */
     void swap_rows(index_t a, index_t b) {
+        if (a == b) return;
         index_t *src = parent_t::getSrcData();
         index_t *dst = parent_t::getDstData();
         // inverse swap
@@ -352,6 +352,7 @@ public:
      * @param b A column index.
      */
     void swap_cols(index_t a, index_t b) {
+        if (a == b) return;
         index_t *src = parent_t::getSrcData();
         index_t *dst = parent_t::getDstData();
         // inverse swap
@@ -464,6 +465,7 @@ void permutation_apply(index_t* p, index_t n, RandomAccessIterator v) {
             // (we only need to do this if we might encounter the cycle again)
             p[cur] = cur;
         } while (next != i);
+        p[i] = i;
     }
 }
 
@@ -483,6 +485,8 @@ index_t permutation_sign(index_t* p, index_t n) {
         if (p[i] == i) continue;
         // traverse the cycle
         index_t cur = i;
+        // a cycle of length L is the product of L - 1 transpositions
+        odd = not odd;
         do {
             // source of the new element at this position:
             index_t next = p[cur];
-- 
2.43.0


From ecff6866f528bf53fac59aafccc1a009870210bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 019/153] fix: matrix row iterators, element proxies and
 MatrixHandle did not compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 8 ++++----
 geomc/linalg/mtxtypes/MatrixHandle.h    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 38ae378..c0fb937 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -208,7 +208,7 @@ private:
     
     friend class boost::iterator_core_access;
     
-    inline bool equal(const MtxColIterator<M,RefType>& other) const {
+    inline bool equal(const MtxRowIterator<M,RefType>& other) const {
         return (other.mtx == mtx) and (other.pt == pt);
     }
     
@@ -230,7 +230,7 @@ private:
     
     inline RefType dereference() const {
         // always make sure this is calling the function with the right const-ness!
-        return mtx->get(pt.row, pt.col);
+        return (*mtx)(pt.row, pt.col);
     }
     
 };
@@ -275,7 +275,7 @@ public:
     
     // TODO: this should be a reference?
     inline operator T() const {
-        return ((const M*)m)->get(row, col);
+        return (*(const M*)m)(row, col);
     }
     
 };
@@ -314,7 +314,7 @@ struct _ImplMtxReftype {
 
 template <typename M, typename T>
 struct _ImplMtxConstRowtype {
-    typedef MtxRowIterator<M, const T> const_row_iterator;
+    typedef MtxRowIterator<const M, const T> const_row_iterator;
 };
 
 template <typename M, typename T>
diff --git a/geomc/linalg/mtxtypes/MatrixHandle.h b/geomc/linalg/mtxtypes/MatrixHandle.h
index 3f4d1a1..9f1b7e0 100644
--- a/geomc/linalg/mtxtypes/MatrixHandle.h
+++ b/geomc/linalg/mtxtypes/MatrixHandle.h
@@ -42,7 +42,7 @@ class MatrixHandle : public detail::WriteableMatrixBase<T,DYNAMIC_DIM, DYNAMIC_D
 public:
     typedef typename detail::_ImplMtxReftype<MatrixHandle<T>,T>::reference reference;
     
-    using detail::WriteableMatrixBase<T,DYNAMIC_DIM,DYNAMIC_DIM, MatrixHandle<T> >::get;
+    using detail::WriteableMatrixBase<T,DYNAMIC_DIM,DYNAMIC_DIM, MatrixHandle<T> >::operator();
     
     MatrixHandle() {}
     virtual ~MatrixHandle() {}
@@ -68,7 +68,7 @@ public:
     typedef typename M::elem_t elem_t;
     typedef typename MatrixHandle<elem_t>::reference reference;
     
-    using MatrixHandle<elem_t>::get;
+    using MatrixHandle<elem_t>::operator();
     
     M *m;
     MatrixWrapper(M *m):m(m) {}
-- 
2.43.0


From be6473fb1dc986deb4e11270db8cc3b103696edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 020/153] fix: grid iterators: wrong retreat and advance,
 phantom points in empty regions, not assignable

---
 geomc/linalg/mtxdetail/MatrixLayout.h |  6 ++---
 geomc/shape/GridIterator.h            | 34 ++++++++++++++++-----------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixLayout.h b/geomc/linalg/mtxdetail/MatrixLayout.h
index ddc2eb9..b8bd3ae 100644
--- a/geomc/linalg/mtxdetail/MatrixLayout.h
+++ b/geomc/linalg/mtxdetail/MatrixLayout.h
@@ -18,9 +18,9 @@ struct TransposeIterator :
     typedef typename std::conditional<Const, const T*, T*>::type pointer_t;
     typedef typename std::conditional<Const, const T&, T&>::type ref_t;
     
-    const pointer_t base;
-    const index_t   major; // # elements along major (consecutive) axis
-    const index_t   minor; // # elements along minor axis
+    pointer_t base;
+    index_t   major; // # elements along major (consecutive) axis
+    index_t   minor; // # elements along minor axis
           index_t   i;     // ordinal of this iterator
           pointer_t p;     // pointed memory location
     
diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 8452fa8..73377a1 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -74,7 +74,7 @@ public:
     typedef typename PointType<T,N>::point_t point_t;
     
     /// Region over which to iterate
-    const Rect<T,N> region;
+    Rect<T,N> region;
     /// Current point
     point_t pt;
     
@@ -119,6 +119,7 @@ public:
     inline GridIterator<T,N,Order> end() const {
         GridIterator<T,N,Order> other = *this;
         other.pt = region.lo;
+        if (region.is_empty()) return other;
         // one beyond the highest cell. i.e. first cell in
         // (N-1)D block just beyond the end of this region. 
         other.pt[dim_last] = region.hi[dim_last] + 1;
@@ -145,22 +146,26 @@ private:
         for (index_t i = dim_first;
                 i != dim_end and --(pt[i]) < region.lo[i];
                 i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i] - 1;
+            if (i != dim_last) pt[i] = region.hi[i];
         }
     }
     
     inline void advance(index_t n) {
-        point_t dest = point_t(0);
-        point_t dim  = region.dimensions();
-        index_t vol  = region.volume();
+        if (n == 0) return;
+        point_t dim = region.dimensions();
+        index_t vol = 1;
         
-        for (index_t i = dim_last; i != dim_first - dim_increment; i -= dim_increment) {
-            vol     = vol / dim[i];
-            dest[i] = n / vol;
-            n       = n % vol;
+        // ordinal of the destination, counting from the first point of the region
+        for (index_t i = dim_first; i != dim_end; i += dim_increment) {
+            n   += vol * (pt[i] - region.lo[i]);
+            vol *= dim[i];
         }
         
-        pt = dest;
+        for (index_t i = dim_first; i != dim_last; i += dim_increment) {
+            pt[i] = region.lo[i] + n % dim[i];
+            n     = n / dim[i];
+        }
+        pt[dim_last] = region.lo[dim_last] + n;
     }
     
     inline index_t distance_to(const GridIterator<T,N,Order> &other) const {
@@ -206,27 +211,28 @@ class GridIterator<T,1,Order> :
 
 public:
 
-    static const ArrayOrder order;
+    static constexpr ArrayOrder order = Order;
     typedef typename PointType<T,1>::point_t point_t;
     
-    const Rect<T,1> region;
+    Rect<T,1> region;
     point_t pt;
     
     GridIterator(const Rect<T,1> &r):
             region(r),
             pt(region.lo) {}
     GridIterator(const point_t &lo, const point_t &hi):
-            region(lo, hi + 1),
+            region(lo, hi - 1),
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-        GridIterator<T,1> other = *this;
+        GridIterator<T,1,Order> other = *this;
         other.pt = region.lo;
         return other;
     }
     
     inline GridIterator<T,1,Order> end() const {
         GridIterator<T,1,Order> other = *this;
+        if (region.is_empty()) return begin();
         other.pt = region.hi + 1;
         return other;
     }
-- 
2.43.0


From 997a30af39cb030eb87ea1427f3946ced6442c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 021/153] fix: as_transpose, and scaling or transposing a
 wrapper matrix, did not compile

---
 geomc/linalg/mtxdetail/MatrixArithmetic.h   | 13 ++++++++++++-
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h |  3 ++-
 geomc/linalg/mtxtypes/SimpleMatrix.h        | 19 +++++++++++++------
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index 4d4a905..559430d 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -147,9 +147,20 @@ struct _ImplMatrixAddReturnType <Ma, Mb,
  * Matrix scalar mul                *
  ************************************/
 
+// a scaled copy has the same type, except that it needs storage of its own
+template <typename Mx>
+struct _ImplMatrixScaleReturn {
+    typedef Mx type;
+};
+
+template <typename T, index_t M, index_t N, MatrixLayout Lyt>
+struct _ImplMatrixScaleReturn < SimpleMatrix<T,M,N,Lyt,STORAGE_WRAPPED> > {
+    typedef SimpleMatrix<T,M,N,Lyt> type;
+};
+
 template <typename Mx>
 struct _ImplMatrixScale {
-    typedef Mx return_t;
+    typedef typename _ImplMatrixScaleReturn<Mx>::type return_t;
     
     template <typename Md, typename U>
     static void scale(Md *d, U k, const Mx &m) {
diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5239760..ff70372 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -113,7 +113,8 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 struct _ImplMtxTxpose<geom::SimpleMatrix<T,M,N,Lyt,P> > {
     
     typedef geom::SimpleMatrix<T,M,N,Lyt,P> Mx;
-    typedef geom::SimpleMatrix<T,N,M,Lyt,P> return_t;
+    // (a new matrix needs storage of its own)
+    typedef geom::SimpleMatrix<T,N,M,Lyt, P == STORAGE_WRAPPED ? STORAGE_UNIQUE : P> return_t;
     
     
     // xxx: this is masked by alias checking, which will duplicate
diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 3dda3dc..de5a035 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -484,15 +484,22 @@ public:
      */
 #ifdef PARSING_DOXYGEN
     WrapperMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR> 
-    as_transpose() const {
+    as_transpose() {
 #else
     SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> 
-    as_transpose() const {
+    as_transpose() {
 #endif
-        return 
-        SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED>(
-            data.get(), cols(), rows()
-        );
+        typedef SimpleMatrix<
+            T,N,M, 
+            (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, 
+            STORAGE_WRAPPED
+        > transpose_t;
+        if constexpr (M == DYNAMIC_DIM and N == DYNAMIC_DIM) {
+            return transpose_t(data.get(), cols(), rows());
+        } else {
+            // at most one dimension is dynamic
+            return transpose_t(data.get(), N == DYNAMIC_DIM ? cols() : rows());
+        }
     }
     
     /**
-- 
2.43.0


From 56f177d024ca2c220203d6b0fd39da1ab72b13c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 022/153] fix: LU decomposition never examined the last pivot,
 so singular and tall matrices were mishandled

---
 geomc/linalg/LUDecomp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index be07c12..6e6220f 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -117,7 +117,7 @@ index_t decomp_lup(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
@@ -203,7 +203,7 @@ index_t decomp_plu(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
-- 
2.43.0


From 29be0eebc4cc99b49c583cdac61df13d8d1940c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 023/153] fix: orthogonal() and nullspace() failed for
 independent bases with a singular leading block

---
 geomc/linalg/Orthogonal.h | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index ec11bdf..d41dd20 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -76,18 +76,26 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
     std::copy(v0, v0 + N * (N-1), m);
     
     bool parity_swap = false;
-    if (decomp_plu(m, N-1, N, P, &parity_swap) > 0) {
+    // pivot columns, because the leading (N-1) x (N-1) block may be singular
+    // even if the bases are independent.
+    if (decomp_lup(m, N-1, N, P, &parity_swap) > 0) {
         // matrix is singular; nullity is > 1. return 0 vector.
         return Vec<T,N>();
     }
     
-    o[N-1] = 1;
+    Vec<T,N> y;
+    y[N-1] = 1;
     for (index_t r = N-2; r >= 0; r--) {
         // back substitute.
         for (index_t c = N-1; c > r; c--) {
-            o[r] -= o[c] * mx(r,c);
+            y[r] -= y[c] * mx(r,c);
         }
-        o[r] /= mx(r,r);
+        y[r] /= mx(r,r);
+    }
+    
+    // undo the column permutation
+    for (index_t i = 0; i < N; i++) {
+        o[P[i]] = y[i];
     }
     
     return o;
@@ -138,7 +146,8 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-    index_t P[N - 2];     //     (N-1 and N cases handled above)
+    index_t P[N];         //     (N-1 and N cases handled above)
+    T       y[N];
             T* n0 = null_basis[0].begin();
     const T* b0 = bases[0].begin();
     
@@ -154,19 +163,22 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     
     // get V to row-echelon form
     bool parity_swap = false;
-    if (decomp_plu(m, n, N, P, &parity_swap) > 0) return false;
+    // (pivoting columns, because the leading n x n block may be singular)
+    if (decomp_lup(m, n, N, P, &parity_swap) > 0) return false;
     
     // foreach null space basis
     for (index_t b = 0; b < N - n; b++) {
-        X(b + n, b) = 1;
+        // P[i] is the original coordinate of the i'th permuted variable
+        X(P[b + n], b) = 1;
         // back substitute.
         for (index_t r = n - 1; r >= 0; r--) {
-            T& x_i =  X(r, b);
+            T& x_i =  y[r];
             x_i    = -V(r, n + b);
             for (index_t c = r + 1; c < n; c++) {
-                x_i -= V(r, c) * X(c, b);
+                x_i -= V(r, c) * y[c];
             }
             x_i /= V(r, r);
+            X(P[r], b) = x_i;
         }
     }
     
-- 
2.43.0


From 28b6ffe7d9c813df0a7ad059754576656830e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 024/153] fix: cholesky() of a column-major matrix did not
 compile

---
 geomc/linalg/Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Cholesky.h b/geomc/linalg/Cholesky.h
index cfa7b18..9ce6903 100644
--- a/geomc/linalg/Cholesky.h
+++ b/geomc/linalg/Cholesky.h
@@ -85,7 +85,7 @@ cholesky(SimpleMatrix<T,M,N,Lyt,P>* m) {
     if (M * N == 0 and m->rows() != m->cols()) {
         return false;
     }
-    return cholesky<T,true>(m->begin(), m->rows());
+    return cholesky<T,Lyt == ROW_MAJOR>(m->data_begin(), m->rows());
 }
 #endif
 
-- 
2.43.0


From 5b0bc71d2e78445d7c3392568ba607f0454671ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 025/153] fix: runtime-sized product did not check its inner
 dimension, and could not be written to a vector

---
 geomc/linalg/Matrix.h               |  8 ++++++++
 geomc/linalg/mtxdetail/MatrixMult.h | 20 ++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index a990711..f2fd44a 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -498,6 +498,10 @@ mul(Md *into, const Ma &a, const Mb &b) {
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
     
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // if neither configuration yields dimension agreement:
     if (not ((Dr::rows(*into) == A::rows(a) and Dr::cols(*into) == B::cols(b)) or
              (Dc::rows(*into) == A::rows(a) and Dc::cols(*into) == B::cols(b))) ) {
@@ -542,6 +546,10 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
     
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // if neither configuration yields dimension agreement:
     if (not ((Dr::rows(*into) == A::rows(a) and Dr::cols(*into) == B::cols(b)) or
              (Dc::rows(*into) == A::rows(a) and Dc::cols(*into) == B::cols(b))) ) {
diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 5428a1a..612bc00 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -97,6 +97,26 @@ public:
             }
         }
     }
+    
+    // result is a single row or a single column:
+    template <typename T, index_t N>
+    static void mul(geom::Vec<T,N>* d, const Ma& a, const Mb& b) {
+        *d = geom::Vec<T,N>();
+        mul_acc(d, a, b);
+    }
+    
+    template <typename T, index_t N>
+    static void mul_acc(geom::Vec<T,N>* d, const Ma& a, const Mb& b) {
+        for (index_t r = 0; r < a.rows(); r++) {
+            for (index_t c = 0; c < b.cols(); c++) {
+                T sum = (*d)[r + c];
+                for (index_t n = 0; n < a.cols(); n++) {
+                    sum += a(r, n) * b(n, c);
+                }
+                (*d)[r + c] = sum;
+            }
+        }
+    }
 };
 
 
-- 
2.43.0


From 5589afdb776ce1fa39c5f29e89757362bd804214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 026/153] fix: positive_mod, ceil_div and floor_div for mixed
 signs and large divisors

---
 geomc/function/Utils.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index c160ad2..c0f7d80 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -22,7 +22,10 @@ namespace geom {
 
 template <typename T>
 inline std::enable_if_t<std::is_integral_v<T>, T> positive_mod(T a, T b) {
-    return (a % b + b) % b;
+    T r = a % b;
+    // `r` takes the sign of `a`; shift it to the sign of `b`
+    // (without overflowing, should `b` be more than half the range of T)
+    return (r != 0 and ((r < 0) != (b < 0))) ? r + b : r;
 }
 
 template <typename T>
@@ -225,7 +228,8 @@ constexpr auto ceil_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::ceil(a / b);
     } else {
-        return (a + b - 1) / b;
+        // integer division truncates, which rounds up already if the quotient is negative
+        return a / b + (a % b != 0 and ((a % b < 0) == (b < 0)));
     }
 }
 
@@ -250,7 +254,8 @@ constexpr auto floor_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::floor(a / b);
     } else {
-        return (a + b) / b - 1;
+        // integer division truncates, which rounds down already if the quotient is positive
+        return a / b - (a % b != 0 and ((a % b < 0) != (b < 0)));
     }
 }
 
-- 
2.43.0


From 31703380f315d91b145372b2c1719a75b67589bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 027/153] fix: fused products of dual and complex numbers did
 not compile

---
 geomc/function/functiondetail/UtilDetail.h | 32 +++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index bc1437a..02cf7fe 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -99,7 +99,7 @@ struct _ImplFMADot<Dual<T,P>, void> {
         T dp = geom::sum_of_products<T>(a.x, b.dx, a.dx, b.x);
         T dq = geom::sum_of_products<T>(c.x, d.dx, c.dx, d.x);
         return Dual<T,P>(
-            geom::diff_of_products<T>(a, b, c, d),
+            geom::diff_of_products<T>(a.x, b.x, c.x, d.x),
             dp - dq);
     }
     
@@ -135,10 +135,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i -
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r - cd_r, ab_i - cd_i};
     }
     
@@ -150,10 +150,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i +
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r + cd_r, ab_i + cd_i};
     }
     
@@ -164,19 +164,19 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // todo: better...?
         // (a + bi) * (c + di) = (ac - bd) + (ad + bc)i
-        // auto ab_r = diff_of_products(a.real, b.real, a.imag, b.imag);
-        // auto ab_i =  sum_of_products(a.real, b.imag, a.imag, b.real);
-        // return {ab_r + c.real, ab_i + c.i};
+        // auto ab_r = diff_of_products(a.real(), b.real(), a.imag(), b.imag());
+        // auto ab_i =  sum_of_products(a.real(), b.imag(), a.imag(), b.real());
+        // return {ab_r + c.real(), ab_i + c.i};
         
         // or maybe try to kahanify this yourself...?
         
         // (a + bi) * (c + di) + (k_r + k_i i)
         // real: (ac - bd + k_r)
-        auto bd_k = geom::multiply_add<T>(-a.imag, b.imag, c.real);
-        auto real = geom::multiply_add<T>( a.real, b.real, bd_k);
+        auto bd_k = geom::multiply_add<T>(-a.imag(), b.imag(), c.real());
+        auto real = geom::multiply_add<T>( a.real(), b.real(), bd_k);
         // imag: (ad + bc + k_i)
-        auto bc_k = geom::multiply_add<T>(a.imag, b.real, c.imag);
-        auto imag = geom::multiply_add<T>(a.real, b.imag, bc_k);
+        auto bc_k = geom::multiply_add<T>(a.imag(), b.real(), c.imag());
+        auto imag = geom::multiply_add<T>(a.real(), b.imag(), bc_k);
         return {real, imag};
     }
 };
-- 
2.43.0


From a264e94f6c4f6b490442cc65fc932ef7cf062e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 028/153] fix: Dual derivatives, conversions and comparisons

---
 geomc/function/functiondetail/DualFunctions.h | 20 +++++++++----------
 geomc/function/functiondetail/DualImpl.h      | 16 +++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 35e9cb6..df90272 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -59,7 +59,7 @@ template <typename T, typename U, DiscontinuityPolicy Dp>
 requires requires(T t, U u) {
     {t * u} -> std::convertible_to<T>;
 }
-constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, T s) {
+constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, U s) {
     x.x  = x.x  * s;
     x.dx = x.dx * s;
     return x;
@@ -297,7 +297,7 @@ inline geom::Dual<T,P> cos(const geom::Dual<T,P> &d) {
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> tan(const geom::Dual<T,P> &d) {
     T c = std::cos(d.x);
-    return geom::Dual<T,P>(std::tan(d.x), -d.dx / (c*c));
+    return geom::Dual<T,P>(std::tan(d.x), d.dx / (c*c));
 }
 
 
@@ -360,7 +360,7 @@ inline geom::Dual<T,P> atan2(const geom::Dual<T,P> &y, const geom::Dual<T,P> &x)
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> exp(const geom::Dual<T,P> &d) {
     T e = std::exp(d.x);
-    return geom::Dual<T,P>(e, -d.dx * e);
+    return geom::Dual<T,P>(e, d.dx * e);
 }
 
 
@@ -395,7 +395,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     T a_c = pow(base.x, xp.x);
     return geom::Dual<T,P>(
         a_c,
-        base.dx * xp.x * a_c / xp.x +
+        base.dx * xp.x * pow(base.x, xp.x - 1) +
         xp.dx * a_c * std::log(base.x)
     );
     
@@ -406,12 +406,12 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
  * @brief Returns `base` raised to exponent `xp`.
  * @related geom::Dual
  */
-template <typename T, typename U>
-inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
+template <typename T, typename U, geom::DiscontinuityPolicy P>
+inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, U xp) {
     T a_x = pow(base.x, xp);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
-        base.dx * xp * a_x / base.x
+        base.dx * xp * pow(base.x, xp - 1)
     );
 }
 
@@ -423,7 +423,7 @@ inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
 template <typename T, typename U, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
     T a_x = pow(base, xp.x);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         xp.dx * a_x * std::log(base)
     );
@@ -545,7 +545,7 @@ inline geom::Dual<T,P> max(const geom::Dual<T,P> &d1, const geom::Dual<T,P> &d2)
     } else {
         dx = gt ? d1.dx : d2.dx;
     }
-    return geom::Dual<T>(x,dx);
+    return geom::Dual<T,P>(x,dx);
 }
 
 
diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index ccfb42f..803d74e 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -140,7 +140,7 @@ struct Dual {
      *******************************/
    
     /// Construct a Dual default value and 0 derivative.
-    constexpr Dual():dx(0) {}
+    constexpr Dual():x(),dx(0) {}
     
     /// Construct a Dual with value `x` and 0 derivative.
     constexpr Dual(T x):x(x),dx(0) {}
@@ -150,7 +150,7 @@ struct Dual {
     
     /// Construct a Dual from one with a different discontinuity policy.
     template <DiscontinuityPolicy DP1>
-    constexpr Dual(const Dual<T,DP1>& d):x(d.dx), dx(d.dx) {}
+    constexpr Dual(const Dual<T,DP1>& d):x(d.x), dx(d.dx) {}
     
     /// Copy-construct a Dual
     constexpr Dual(const Dual& d) = default;
@@ -172,17 +172,17 @@ struct Dual {
     // comparison
     
     /// Equality of primal component
-    inline bool operator==(const Dual<T,Dp> &d) { return x == d.x; }
+    inline bool operator==(const Dual<T,Dp> &d) const { return x == d.x; }
     /// Inequality of primal component
-    inline bool operator!=(const Dual<T,Dp> &d) { return x != d.x; }
+    inline bool operator!=(const Dual<T,Dp> &d) const { return x != d.x; }
     /// Greater-or-equal-to comparison of primal component
-    inline bool operator>=(const Dual<T,Dp> &d) { return x >= d.x; }
+    inline bool operator>=(const Dual<T,Dp> &d) const { return x >= d.x; }
     /// Less-or-equal-to comparison of primal component
-    inline bool operator<=(const Dual<T,Dp> &d) { return x <= d.x; }
+    inline bool operator<=(const Dual<T,Dp> &d) const { return x <= d.x; }
     /// Greater-than comparison of primal component
-    inline bool operator> (const Dual<T,Dp> &d) { return x  > d.x; }
+    inline bool operator> (const Dual<T,Dp> &d) const { return x  > d.x; }
     /// Less-than comparison of primal component
-    inline bool operator< (const Dual<T,Dp> &d) { return x  < d.x; }
+    inline bool operator< (const Dual<T,Dp> &d) const { return x  < d.x; }
     
     /// Post-increment
     Dual<T,Dp> operator++(int) {
-- 
2.43.0


From 68868e81a211dc2aad142d216a58a604242605b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 029/153] fix: hashing of rays, simplexes, affine transforms,
 duals and tuples

---
 geomc/Hash.h                                  |  12 +
 geomc/function/functiondetail/DualFunctions.h |   7 +-
 geomc/linalg/AffineTransform.h                |   4 +-
 geomc/linalg/Ray.h                            | 316 +++++++++---------
 geomc/shape/Simplex.h                         |   2 +-
 5 files changed, 176 insertions(+), 165 deletions(-)

diff --git a/geomc/Hash.h b/geomc/Hash.h
index 0d95480..63fed90 100644
--- a/geomc/Hash.h
+++ b/geomc/Hash.h
@@ -11,6 +11,18 @@ namespace geom {
 template <typename T, typename H>
 H hash(const T& obj);
 
+template <std::unsigned_integral H>
+constexpr H hash_combine(H h0, H h1);
+
+template <typename H>
+constexpr H hash_combine_many(H h);
+
+template <typename H, typename... Hs>
+constexpr H hash_combine_many(H h, Hs... hashes);
+
+template <typename H>
+H hash_bytes(H nonce, const void* obj, size_t size);
+
 
 namespace detail {
 
diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index df90272..002cb70 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -253,10 +253,9 @@ constexpr Dual<T,Dp> operator-(const Dual<T,Dp>& d) {
 template <typename T, DiscontinuityPolicy Dp, typename H>
 struct Digest<Dual<T,Dp>, H> {
     H operator()(const Dual<T,Dp>& d) const {
-        return hash_combine<H>(
-            geom::hash<T,H>(d.x),
-            geom::hash<T,H>(d.dx)
-        );
+        // equality compares the primal component only, so the hash must too
+        H nonce = geom::truncated_constant<H>(0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1);
+        return geom::hash_many<H>(nonce, d.x);
     }
 };
 
diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index ed72436..8ea9bfa 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -874,9 +874,9 @@ AffineTransform<T,2> translation(T tx, T ty) {
 
 
 // hashing
-template <typename T, size_t N, typename H>
+template <typename T, index_t N, typename H>
 struct Digest<AffineTransform<T,N>, H> {
-    size_t operator()(const AffineTransform<T,N>& xf) const {
+    H operator()(const AffineTransform<T,N>& xf) const {
         H nonce = truncated_constant<H>(0x173d01f6a3408f0b, 0x74a2e1d9f7a37c6f);
         return geom::hash<SimpleMatrix<T,N+1,N+1>, H>(xf.mat) ^ nonce;
     }
diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9f9eb6e..b97f1e6 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -1,158 +1,158 @@
-#pragma once
-
-#ifdef GEOMC_USE_STREAMS
-#include <iostream>
-#endif
-
-#include <geomc/linalg/LinalgTypes.h>
-#include <geomc/linalg/Vec.h>
-
-
-namespace geom {
-
-/**
- * @brief Ray class.
- * @tparam T Coordinate type.
- * @tparam N Dimensionality.
- * @ingroup linalg
- */
-template <typename T, index_t N>
-class Ray {
-public:
-    /**
-     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
-     * if `N` is greater than 1; or a `T` if `N` is 1.
-     */
-    typedef typename PointType<T,N>::point_t point_t;
-    /// Origin of ray.
-    point_t origin;
-    /// Direction of ray.
-    point_t direction;
-
-    /*************************
-     * Structors             *
-     *************************/
-    
-    /// Construct a ray through the origin directed along the +x axis.
-    Ray():origin((T)0),direction((T)0) {
-        direction[0] = 1; //x axis
-    }
-    
-    /// Construct a ray through the point `o` with direction `v`.
-    Ray(point_t o, point_t v):
-        origin(o),
-        direction(v) {}
-
-    /*************************
-     * Operators             *
-     *************************/
-
-    /// Return a ray pointing in the opposite direction.
-    Ray<T,N> operator-() const {
-        return {origin, -direction};
-    }
-
-    /*************************
-     * Public Methods        *
-     *************************/
-    
-    /// Change the dimensionality of this Ray.
-    template <index_t M>
-    inline Ray<T,M> resized() const {
-        return Ray<T,M>(
-            origin.   template resized<M>(),
-            direction.template resized<M>());
-    }
-
-    /// Return the point along this ray's direction, at distance `d` from the ray origin.
-    inline point_t at_distance(T d) const {
-        return origin + direction.unit() * d;
-    }
-
-    /// Return the point `origin + s * direction`.
-    inline point_t at_multiple(T s) const {
-        return origin + direction * s;
-    }
-    
-    /**
-     * @brief Find the point on the ray nearest to `p` by orhtogonally
-     * projecting `p` onto it.
-     */
-    inline point_t project(point_t p) const {
-        return (p - origin).project_on(direction) + origin;
-    }
-    
-    /// Signed distance from `p` to the nearest point on the ray.
-    inline T sdf(point_t p) const {
-        return std::sqrt(dist2());
-    }
-    
-    /// Compute the square of the distance from `p` to the nearest point on the ray.
-    inline T dist2(point_t p) const {
-        point_t b = p - origin;
-        T b2 = b.mag2();
-        T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
-    }
-    
-}; // class Ray
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
-    return r.at_multiple(s);
-}
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
-    return r.at_multiple(s);
-}
-    
-#ifdef GEOMC_USE_STREAMS
-    
-/** @ingroup linalg
- * Ray stream output, in the form:
- * 
- *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
- * where `x` is the origin and `v` is the direction.
- * @related Ray
- */
-template <typename T, index_t N>
-inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
-    stream << "<" << r.origin << " + s * " << r.direction << ">";
-    return stream;
-}
-
-#endif // GEOMC_USE_STREAMS
-
-
-template <typename T, index_t N, typename H>
-struct Digest<Ray<T,N>, H> {
-    H operator()(const Ray<T,N> &r) const {
-        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
-    }
-};
-
-} // namespace geom
-
-
-template <typename T, index_t N>
-struct std::hash<geom::Ray<T,N>> {
-    size_t operator()(const geom::Ray<T,N> &v) const {
-        return geom::hash<geom::Ray<T,N>, size_t>(v);
-    }
-};
+#pragma once
+
+#ifdef GEOMC_USE_STREAMS
+#include <iostream>
+#endif
+
+#include <geomc/linalg/LinalgTypes.h>
+#include <geomc/linalg/Vec.h>
+
+
+namespace geom {
+
+/**
+ * @brief Ray class.
+ * @tparam T Coordinate type.
+ * @tparam N Dimensionality.
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+class Ray {
+public:
+    /**
+     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
+     * if `N` is greater than 1; or a `T` if `N` is 1.
+     */
+    typedef typename PointType<T,N>::point_t point_t;
+    /// Origin of ray.
+    point_t origin;
+    /// Direction of ray.
+    point_t direction;
+
+    /*************************
+     * Structors             *
+     *************************/
+    
+    /// Construct a ray through the origin directed along the +x axis.
+    Ray():origin((T)0),direction((T)0) {
+        direction[0] = 1; //x axis
+    }
+    
+    /// Construct a ray through the point `o` with direction `v`.
+    Ray(point_t o, point_t v):
+        origin(o),
+        direction(v) {}
+
+    /*************************
+     * Operators             *
+     *************************/
+
+    /// Return a ray pointing in the opposite direction.
+    Ray<T,N> operator-() const {
+        return {origin, -direction};
+    }
+
+    /*************************
+     * Public Methods        *
+     *************************/
+    
+    /// Change the dimensionality of this Ray.
+    template <index_t M>
+    inline Ray<T,M> resized() const {
+        return Ray<T,M>(
+            origin.   template resized<M>(),
+            direction.template resized<M>());
+    }
+
+    /// Return the point along this ray's direction, at distance `d` from the ray origin.
+    inline point_t at_distance(T d) const {
+        return origin + direction.unit() * d;
+    }
+
+    /// Return the point `origin + s * direction`.
+    inline point_t at_multiple(T s) const {
+        return origin + direction * s;
+    }
+    
+    /**
+     * @brief Find the point on the ray nearest to `p` by orhtogonally
+     * projecting `p` onto it.
+     */
+    inline point_t project(point_t p) const {
+        return (p - origin).project_on(direction) + origin;
+    }
+    
+    /// Signed distance from `p` to the nearest point on the ray.
+    inline T sdf(point_t p) const {
+        return std::sqrt(dist2());
+    }
+    
+    /// Compute the square of the distance from `p` to the nearest point on the ray.
+    inline T dist2(point_t p) const {
+        point_t b = p - origin;
+        T b2 = b.mag2();
+        T d  = direction.dot(b);
+        return b2 == 0 ? 0 : b2 - (d * d / b2);
+    }
+    
+}; // class Ray
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
+    return r.at_multiple(s);
+}
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
+    return r.at_multiple(s);
+}
+    
+#ifdef GEOMC_USE_STREAMS
+    
+/** @ingroup linalg
+ * Ray stream output, in the form:
+ * 
+ *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
+ * where `x` is the origin and `v` is the direction.
+ * @related Ray
+ */
+template <typename T, index_t N>
+inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
+    stream << "<" << r.origin << " + s * " << r.direction << ">";
+    return stream;
+}
+
+#endif // GEOMC_USE_STREAMS
+
+
+template <typename T, index_t N, typename H>
+struct Digest<Ray<T,N>, H> {
+    H operator()(const Ray<T,N> &r) const {
+        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
+    }
+};
+
+} // namespace geom
+
+
+template <typename T, index_t N>
+struct std::hash<geom::Ray<T,N>> {
+    size_t operator()(const geom::Ray<T,N> &v) const {
+        return geom::hash<geom::Ray<T,N>, size_t>(v);
+    }
+};
diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c9e6222..e9d912f 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -599,7 +599,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Simplex<T,N>, H> {
     H operator()(const Simplex<T,N>& s) const {
         H nonce = geom::truncated_constant<H>(0x8159bb983f797983, 0xe8904e94430f7555);
-        return geom::hash_array<H>(nonce, s.pts, s.n);
+        return geom::hash_array<Vec<T,N>,H>(nonce, s.pts, s.n);
     }
 };
 
-- 
2.43.0


From e8055d3d7201ddb02fba47b953f5ceb7bd0eaf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 030/153] fix: derivative of scalar - dual, and dual *= and /=
 by itself

---
 geomc/function/functiondetail/DualFunctions.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 002cb70..f405690 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -47,10 +47,8 @@ constexpr Dual<T,Dp> operator*(U s, const Dual<T,Dp>& d) {
 /// Multiply and assign to dual.
 template <typename T, DiscontinuityPolicy Dp>
 constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, const Dual<T,Dp>& y) {
-    T x_x = x.x;
-    x.x  = x.x * y.x;
-    // product rule: x * dy + y * dx
-    x.dx = sum_of_products(x_x, y.dx, y.x, x.dx);
+    // (`y` may be the same object as `x`)
+    x = x * y;
     return x;
 }
 
@@ -110,9 +108,10 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp>& operator/=(Dual<T,Dp>& x, const Dual<U,Dp>& y) {
-    auto x_x = x.x;
+    // (`y` may be the same object as `x`)
+    T dx = diff_of_products<T>(x.dx, y.x, x.x, y.dx) / (y.x * y.x);
     x.x  = x.x / y.x;
-    x.dx = diff_of_products(x.dx, y.x, x_x, y.dx) / (y.x * y.x);
+    x.dx = dx;
     return x;
 }
 
@@ -195,7 +194,7 @@ requires requires(T t, U u) {
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
     return Dual<T,Dp>{
         s - d.x,
-        d.dx
+        -d.dx
     };
 }
 
-- 
2.43.0


From 65376e09480d26b9905b73bdc16990322b629b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 031/153] fix: Vec reflection, and Vec2 rotation about a point,
 did not compile

---
 geomc/linalg/vecdetail/Vec2.h    | 370 +++++++++++++++----------------
 geomc/linalg/vecdetail/VecBase.h |   2 +-
 2 files changed, 186 insertions(+), 186 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 68682b0..fbe3f30 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotated(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
+            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
diff --git a/geomc/linalg/vecdetail/VecBase.h b/geomc/linalg/vecdetail/VecBase.h
index 8348580..9eb0a74 100644
--- a/geomc/linalg/vecdetail/VecBase.h
+++ b/geomc/linalg/vecdetail/VecBase.h
@@ -604,7 +604,7 @@ public:
      */
     self_t reflect_about(self_t normal) const {
         normal = normal.unit();
-        return this->neg() + normal * 2 * this->dot(normal);
+        return -(*this) + normal * 2 * this->dot(normal);
     }
 
     /**
-- 
2.43.0


From f697f7fb512245f87a5f73f858d61e0376114a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 032/153] fix: Vec2::from_polar took its coordinates in the
 wrong order

---
 geomc/linalg/vecdetail/Vec2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index fbe3f30..a2a9036 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -162,8 +162,8 @@ namespace geom {
          */
         inline Vec<T,2> from_polar() const {
             Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
             return v;
         }
 
-- 
2.43.0


From d96ce81dab8e6d2a68b327bc7c8d8764fba665bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 033/153] fix: unpacking an RGB color did not compile

---
 geomc/linalg/vecdetail/Vec3.h |   6 +-
 geomc/linalg/vecdetail/Vec4.h | 296 +++++++++++++++++-----------------
 2 files changed, 151 insertions(+), 151 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index ee24996..95bfa78 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -52,9 +52,9 @@ namespace geom {
      */
     template <typename T> 
     Vec<T,3> from_rgb(int aRGB){
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,3>(r,g,b);
     }
 
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index 2116bac..b5c09ca 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -1,148 +1,148 @@
-/*
- * Vec4.h
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#ifndef VECTOR4D_H_
-#define VECTOR4D_H_
-
-#include <cctype>
-#include <algorithm>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /*===========================*
-     * Global Functions          *
-     *===========================*/
-
-    template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((rgba & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T b = ((rgba & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T a =  (rgba & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    /*===========================*
-     * Vector Class              *
-     *===========================*/
-
-    /** @ingroup linalg
-     *  @brief 4D specialization of vector class.
-     * 
-     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y,z,w} // conventional Euclidean coordinate names
-     *     v.{s,t,u,v} // conventional parameterization coordinate names
-     *     v.{r,g,b,a} // conventional color tuple coordinate names
-     * 
-     * with `x`, `s`, and `r` all referring to the same element.
-     */
-    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
-    public:
-        
-        /// @brief (1, 0, 0, 0) constant
-        static const Vec<T,4> X_AXIS;
-        /// @brief (0, 1, 0, 0) constant
-        static const Vec<T,4> Y_AXIS;
-        /// @brief (0, 0, 1, 0) constant
-        static const Vec<T,4> Z_AXIS;
-        /// @brief (0, 0, 0, 1) constant
-        static const Vec<T,4> W_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-
-        
-        /// Construct vector with all elements set to 0.
-        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
-        
-        /// Construct a vector with elements `(x, y, z, w)`.
-        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
-
-        /// Construct a vector with elements copied from the 4-element array `v`.
-        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
-
-        /**
-         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
-         * and `w` as the final element.
-         */
-        template <typename U>
-        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xyz.x, xyz.y, xyz.z, w
-        } {}
-        
-        template <typename U>
-        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xy.x, xy.y, z, w
-        } {}
-
-        /// Construct a vector with all elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
-        
-        /*===========================*
-         * Arithmetic                *
-         *===========================*/
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
-        
-        using detail::VecCommon< T, 4, Vec<T,4> >::add;
-        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
-        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
-        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
-
-        /// @return `(dx, dy, dz, dw)` added with `this`
-        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
-                            detail::VecBase<T,4>::y+dy, 
-                            detail::VecBase<T,4>::z+dz, 
-                            detail::VecBase<T,4>::w+dw);
-        }
-        
-        /// @return `(dx, dy, dz, dw)` subtracted from `this`
-        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
-                            detail::VecBase<T,4>::y-dy, 
-                            detail::VecBase<T,4>::z-dz, 
-                            detail::VecBase<T,4>::w-dw);
-        }
-        
-        /// @return Element-wise scaled copy
-        Vec<T,4> scale(T a, T b, T c, T d) const {
-            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
-                            b*detail::VecBase<T,4>::y, 
-                            c*detail::VecBase<T,4>::z, 
-                            d*detail::VecBase<T,4>::w);
-        }
-
-        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
-        T dot(T xx, T yy, T zz, T ww) const {
-            return (detail::VecBase<T,4>::x * xx) + 
-                   (detail::VecBase<T,4>::y * yy) + 
-                   (detail::VecBase<T,4>::z * zz) + 
-                   (detail::VecBase<T,4>::w * ww);
-        }
-        
-    }; //end Vec4 definition
-    
-    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
-
-} //end namespace geom
-
-#endif /* VECTOR4D_H_ */
+/*
+ * Vec4.h
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#ifndef VECTOR4D_H_
+#define VECTOR4D_H_
+
+#include <cctype>
+#include <algorithm>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /*===========================*
+     * Global Functions          *
+     *===========================*/
+
+    template <typename T> const Vec<T,4> from_argb(int aRGB) {
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    template <typename T> const Vec<T,4> from_rgba(int rgba) {
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    /*===========================*
+     * Vector Class              *
+     *===========================*/
+
+    /** @ingroup linalg
+     *  @brief 4D specialization of vector class.
+     * 
+     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y,z,w} // conventional Euclidean coordinate names
+     *     v.{s,t,u,v} // conventional parameterization coordinate names
+     *     v.{r,g,b,a} // conventional color tuple coordinate names
+     * 
+     * with `x`, `s`, and `r` all referring to the same element.
+     */
+    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
+    public:
+        
+        /// @brief (1, 0, 0, 0) constant
+        static const Vec<T,4> X_AXIS;
+        /// @brief (0, 1, 0, 0) constant
+        static const Vec<T,4> Y_AXIS;
+        /// @brief (0, 0, 1, 0) constant
+        static const Vec<T,4> Z_AXIS;
+        /// @brief (0, 0, 0, 1) constant
+        static const Vec<T,4> W_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+
+        
+        /// Construct vector with all elements set to 0.
+        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
+        
+        /// Construct a vector with elements `(x, y, z, w)`.
+        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
+
+        /// Construct a vector with elements copied from the 4-element array `v`.
+        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
+
+        /**
+         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
+         * and `w` as the final element.
+         */
+        template <typename U>
+        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xyz.x, xyz.y, xyz.z, w
+        } {}
+        
+        template <typename U>
+        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xy.x, xy.y, z, w
+        } {}
+
+        /// Construct a vector with all elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
+        
+        /*===========================*
+         * Arithmetic                *
+         *===========================*/
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
+        
+        using detail::VecCommon< T, 4, Vec<T,4> >::add;
+        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
+        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
+        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
+
+        /// @return `(dx, dy, dz, dw)` added with `this`
+        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
+                            detail::VecBase<T,4>::y+dy, 
+                            detail::VecBase<T,4>::z+dz, 
+                            detail::VecBase<T,4>::w+dw);
+        }
+        
+        /// @return `(dx, dy, dz, dw)` subtracted from `this`
+        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
+                            detail::VecBase<T,4>::y-dy, 
+                            detail::VecBase<T,4>::z-dz, 
+                            detail::VecBase<T,4>::w-dw);
+        }
+        
+        /// @return Element-wise scaled copy
+        Vec<T,4> scale(T a, T b, T c, T d) const {
+            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
+                            b*detail::VecBase<T,4>::y, 
+                            c*detail::VecBase<T,4>::z, 
+                            d*detail::VecBase<T,4>::w);
+        }
+
+        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
+        T dot(T xx, T yy, T zz, T ww) const {
+            return (detail::VecBase<T,4>::x * xx) + 
+                   (detail::VecBase<T,4>::y * yy) + 
+                   (detail::VecBase<T,4>::z * zz) + 
+                   (detail::VecBase<T,4>::w * ww);
+        }
+        
+    }; //end Vec4 definition
+    
+    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
+
+} //end namespace geom
+
+#endif /* VECTOR4D_H_ */
-- 
2.43.0


From 97e88636d194a3a0e61332eb135790e2653ec35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 034/153] fix: Vec3 rotation about a center point

---
 geomc/linalg/vecdetail/Vec3.h | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 95bfa78..4669996 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -300,7 +300,7 @@ namespace geom {
         /** @return A copy of this vector rotated by angle `radians` about 
          * rotation axis `axis` and centerpoint `center`.
          */
-        inline Vec<T,3> rotate(Vec<T,3> axis, Vec<T,3> center, T radians){
+        inline Vec<T,3> rotate(Vec<T,3> axis, Vec<T,3> center, T radians) const {
             return rotate(axis.x, axis.y, axis.z, center.x, center.y, center.z, radians);
         }
         
@@ -308,31 +308,9 @@ namespace geom {
          * @return A copy of this vector rotated by angle `radians` about
          * the axis `(u, v, w)`, and centerpoint `(a, b, c)`.
          */
-        Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians){
-            const T& x = this->x;
-            const T& y = this->y;
-            const T& z = this->z;
-            
-            T cc = std::cos(radians);
-            T ss = std::sin(radians);
-            T oneMcos = 1 - cc;
-            
-            T u2 = u * u;
-            T v2 = v * v;
-            T w2 = w * w;
-            T uxvywz = diff_of_products(u, x, v, y) - (w * z);
-            
-            T p0 = sum_of_products(b, v, c, w);
-            T p1 = sum_of_products(a, u, c, w);
-            T p2 = sum_of_products(a, u, b, v);
-            T q0 = diff_of_products(a, v2 + w2, u, p0 - uxvywz);
-            T q1 = diff_of_products(b, u2 + w2, v, p1 - uxvywz);
-            T q2 = diff_of_products(c, u2 + v2, w, p2 - uxvywz);
-            
-            return Vec<T,3>(
-                    q0 * oneMcos + x * cc + (-c*v + b*w - w*y + v*z) * ss,
-                    q1 * oneMcos + y * cc + ( c*u - a*w + w*x - u*z) * ss,
-                    q2 * oneMcos + z * cc + (-b*u + a*v - v*x + u*y) * ss);
+        Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians) const {
+            const Vec<T,3> center(a, b, c);
+            return center + (*this - center).rotate(u, v, w, radians);
         }
         
         /**
-- 
2.43.0


From 14897f3f0bb822b1ff5154c246477b5d32453551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 035/153] fix: Vec3::align for opposed and nearly opposed
 directions

---
 geomc/linalg/vecdetail/Vec3.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 4669996..c702100 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -9,6 +9,7 @@
 #define VECTOR3D_H_
 
 #include <cctype>
+#include <limits>
 #include <geomc/linalg/vecdetail/VecBase.h>
 #include <geomc/function/Utils.h>
 
@@ -315,17 +316,23 @@ namespace geom {
         
         /**
          * Compute a transform aligning `from` with `to` and apply it to `this`.
+         * Both directions must be unit vectors.
          */
-        Vec<T,3> align(const Vec<T,3>& from, const Vec<T,3>& to) {
+        Vec<T,3> align(const Vec<T,3>& from, const Vec<T,3>& to) const {
             // modified from http://iquilezles.org/www/articles/noacos/noacos.htm
             const Vec<T,3>& v = *this;
             const Vec<T,3>  q = from.cross(to);
+            const T        q2 = q.mag2();
             const T         c = from.dot(to);
-            const T         k = 1 / (1 + c);
-            return Vec<T,3>(
-                (q.x * q.x * k + c)   * v.x + (q.y * q.x * k - q.z) * v.y + (q.z * q.x * k + q.y) * v.z,
-                (q.x * q.y * k + q.z) * v.x + (q.y * q.y * k + c)   * v.y + (q.z * q.y * k - q.x) * v.z,
-                (q.x * q.z * k - q.y) * v.x + (q.y * q.z * k + q.x) * v.y + (q.z * q.z * k + c)   * v.z);
+            if (c < 0 and q2 <= std::numeric_limits<T>::min()) {
+                // opposing directions; any half turn perpendicular to `from` will do
+                Vec<T,3> axis;
+                axis[from.argmin()] = 1;
+                return v.reflect_about(from.cross(axis));
+            }
+            // 1 + c is inaccurate when the directions nearly oppose
+            const T         k = c < 0 ? (1 - c) / q2 : 1 / (1 + c);
+            return v * c + q.cross(v) + q * (q.dot(v) * k);
         }
         
         /// @return `true` if no elements are an infinity or `NaN`.
-- 
2.43.0


From a79e1c31bc26e507e7e5e89f69b0ae85bc26349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 036/153] fix: spherical coordinates of the origin were NaN

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index c702100..3c15a32 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -230,7 +230,7 @@ namespace geom {
             T r = this->mag();
             return Vec<T,3>(
                 r,
-                std::acos(detail::VecBase<T,3>::z/r),
+                r == 0 ? (T)0 : std::acos(detail::VecBase<T,3>::z/r),
                 std::atan2(
                     detail::VecBase<T,3>::y,
                     detail::VecBase<T,3>::x));
-- 
2.43.0


From 2e11d96d401c76354dc5e91fd1a271fc3b689072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 037/153] fix: brace initialization of quaternions and large
 vectors did not compile

---
 geomc/linalg/Quaternion.h |  8 +++-----
 geomc/linalg/Vec.h        | 10 +++-------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 39e444e..6bd528f 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -61,11 +61,9 @@ public:
      * @param items A brace-initializer list.
      */
     Quat(const std::initializer_list<T>& items):
-            detail::VecCommon< T,4,Quat<T>>(items.begin()) {
-        // items.size() not constexpr in c++11  D:<
-        static_assert(
-            items.size() == 4,
-            "Quaternion must be initialized with 4 elements");
+            detail::VecCommon< T,4,Quat<T>>() {
+        // items.size() is not a constant expression inside a constructor
+        std::copy_n(items.begin(), std::min<size_t>(items.size(), 4), this->begin());
     }
     
     /*******************************
diff --git a/geomc/linalg/Vec.h b/geomc/linalg/Vec.h
index dbaee90..4aae47c 100644
--- a/geomc/linalg/Vec.h
+++ b/geomc/linalg/Vec.h
@@ -324,13 +324,9 @@ public:
      * @param items A brace-initializer list.
      */
 #if __cplusplus >= 201103L or PARSING_DOXYGEN
-    Vec(const std::initializer_list<T>& items):
-        detail::VecCommon< T,N,Vec<T,N> >(items.begin())
-    {
-#if __cplusplus >= 201402L
-        // items.size() not constexpr in c++11  D:<
-        static_assert(items.size() == N, "Vector must be initialized with N items");
-#endif
+    Vec(const std::initializer_list<T>& items) {
+        // items.size() is not a constant expression inside a constructor
+        std::copy_n(items.begin(), std::min<size_t>(items.size(), N), this->begin());
     }
 #endif
     
-- 
2.43.0


From a844e081ef452e3eb8f5676c212e34e9df815c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 038/153] fix: Quat::rotation_direction_align rotated by the
 wrong angle

---
 geomc/linalg/Quaternion.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 6bd528f..8b21415 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -9,6 +9,7 @@
 #define QUATERNION_H_
 
 #include <cmath>
+#include <limits>
 #include <geomc/linalg/Vec.h>
 
 namespace geom {
@@ -99,9 +100,17 @@ public:
             const Vec<T,3>& v,
             const Vec<T,3>& alignWith)
     {
+        // the half-angle's sine and cosine are half the lengths of the
+        // difference and the sum of the two directions.
         Vec<T,3> axis = v ^ alignWith;
-        T d = v.dot(alignWith);
-        return Quat<T>(axis, d);
+        if (axis.mag2() <= std::numeric_limits<T>::min()) {
+            if (v.dot(alignWith) >= 0) return identity();
+            // opposing directions; any half turn perpendicular to `v` will do
+            Vec<T,3> a;
+            a[v.argmin()] = 1;
+            return Quat<T>((v ^ a).unit(), 0);
+        }
+        return Quat<T>(axis.unit() * (v - alignWith).mag(), (v + alignWith).mag()).unit();
     }
 
     /*******************************
-- 
2.43.0


From 8ea833133fe2a0c8ccd40015304f7c6d5e089b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 039/153] fix: axis-angle and angular velocity of non-double
 quaternions did not compile

---
 geomc/linalg/Quaternion.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 8b21415..f677716 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -200,8 +200,8 @@ public:
      * `(x, y, z, radians)`.
      */
     Vec<T,4> to_axis_angle_rotation() const {
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
-        double alpha = 2 * std::acos(w_clamp);
+        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, (T)-1), (T)1);
+        T alpha = 2 * std::acos(w_clamp);
         if (detail::VecBase<T,4>::x == 0 and 
             detail::VecBase<T,4>::y == 0 and
             detail::VecBase<T,4>::z == 0)
@@ -218,7 +218,7 @@ public:
      */
     Vec<T,3> to_angular_velocity() const {
         // assumes a unit quaternion.
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
+        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, (T)-1), (T)1);
         T alpha = 2 * std::acos(w_clamp);
         if (imag().is_zero()) {
             return Vec<T,3>::zeros;
-- 
2.43.0


From ef4bed04a175a4018b7831271d9e32205c5293cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 040/153] fix: quaternion slerp and rotation_scale did not
 compile

---
 geomc/linalg/Quaternion.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index f677716..3da0be6 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -234,10 +234,12 @@ public:
     // this may go the "long way" around. that what we want?
     Quat<T> rotation_scale(T t) const {
         // assumes a unit quaternion.
-        const T w = std::max(-1, std::min(Vec<T,4>::w, 1));
-        T omega = std::acos(w);
+        const Vec<T,3> v = imag();
+        const T m = v.mag();
+        if (m == 0) return identity();
+        T omega = std::atan2(m, detail::VecBase<T,4>::w);
         T theta = omega * t;
-        return Quat<T>(std::sin(theta) * imag().unit(), std::cos(theta));
+        return Quat<T>((std::sin(theta) / m) * v, std::cos(theta));
     }
 
     /**
@@ -247,7 +249,7 @@ public:
      * @param t Interpolation parameter between 0 and 1.
      * @return 
      */
-    Quat<T> slerp(const Quat<T> &q1, T t) const {
+    Quat<T> slerp(Quat<T> q1, T t) const {
         // assumed unit quaternion.
         const Quat<T> &q0 = *this;
         T dot = q0.dot(q1);
@@ -255,11 +257,12 @@ public:
             dot = -dot;
             q1 = -q1;
         }
-        dot = std::max(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
-        T omega = std::acos(dot);
+        Quat<T> q2 = q1 - q0 * dot;
+        T m = q2.mag();
+        if (m == 0) return q0; // same orientation
+        T omega = std::atan2(m, dot);
         T theta = omega * t;
-        Quat<T> q2 = (q1 - q0 * dot).unit();
-        return std::cos(theta) * q0 + std::sin(theta) * q2;
+        return std::cos(theta) * q0 + (std::sin(theta) / m) * q2;
     }
     
     /**
-- 
2.43.0


From 18314eca8073a0e65a2ab06adca8c796e5e8f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 041/153] fix: log and power of real quaternions, and integer
 powers of any

---
 geomc/linalg/Quaternion.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 3da0be6..3b75cd9 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -320,7 +320,9 @@ geom::Quat<T> log(const geom::Quat<T>& q) {
     T q_m = q.mag();
     T v_m = q.imag().mag();
     T k   = std::acos(q.w / q_m);
-    return geom::Quat<T>(k * q.imag() / v_m, std::log(q_m));
+    // a real quaternion has no axis of its own
+    geom::Vec<T,3> nhat = v_m == 0 ? geom::Vec<T,3>::unit_x : q.imag() / v_m;
+    return geom::Quat<T>(k * nhat, std::log(q_m));
 }
 
 /**
@@ -330,8 +332,9 @@ template <typename T, typename U>
 geom::Quat<T> pow(const geom::Quat<T> &q, U a) {
     T mag = q.mag();
     if (mag == 0) return geom::Quat<T>(0,0,0,1);
-    U theta = std::acos(q.real() / mag); // :(
-    geom::Vec<T,3> nhat = q.imag().unit();
+    T theta = std::acos(q.real() / mag); // :(
+    // a real quaternion has no axis of its own
+    geom::Vec<T,3> nhat = q.imag().is_zero() ? geom::Vec<T,3>::unit_x : q.imag().unit();
     return std::pow(mag, a) * geom::Quat<T>(
         nhat * std::sin(a * theta), 
         std::cos(a * theta));
-- 
2.43.0


From faf07b2b5d1da3458789e90a8afb486688dbd4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 042/153] fix: comparing quaternions was ambiguous

---
 geomc/linalg/Quaternion.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 3b75cd9..fcafd45 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -25,6 +25,9 @@ namespace geom {
 template <typename T>
 class Quat : public detail::VecCommon< T, 4, Quat<T> > {
 public:
+
+    // to prevent c++20 ambiguity warnings:
+    using detail::VecCommon<T,4,Quat<T>>::operator==;
     
     /*******************************
      * Constructors                *
-- 
2.43.0


From 9abc4d8be3484045ab8e4bd86245ee059615889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 043/153] fix: distance from a point to a ray

---
 geomc/linalg/Ray.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index b97f1e6..e6c0a81 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -84,15 +84,12 @@ public:
     
     /// Signed distance from `p` to the nearest point on the ray.
     inline T sdf(point_t p) const {
-        return std::sqrt(dist2());
+        return std::sqrt(dist2(p));
     }
     
     /// Compute the square of the distance from `p` to the nearest point on the ray.
     inline T dist2(point_t p) const {
-        point_t b = p - origin;
-        T b2 = b.mag2();
-        T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
+        return p.dist2(project(p));
     }
     
 }; // class Ray
-- 
2.43.0


From 54346bf03911a66e32ca0162433867ba7a437d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 044/153] fix: a resized affine transform lost the translation
 of its inverse

---
 geomc/linalg/AffineTransform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 8ea9bfa..c061cc8 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -184,9 +184,11 @@ public:
             }
             // keep translation components in the homogenous column
             xf.mat(i,M) = static_cast<U>(mat(i,N));
+            xf.inv(i,M) = static_cast<U>(inv(i,N));
         }
         // this ought to be 1, but let's be pedantic
         xf.mat(M,M) = mat(N,N);
+        xf.inv(M,M) = inv(N,N);
         return xf;
     }
     
-- 
2.43.0


From a239e72406a4edd26763e93154d63c6106b4dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 045/153] fix: direction_align for opposed and nearly opposed
 directions

---
 geomc/linalg/AffineTransform.h | 80 +++++++++++++---------------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index c061cc8..0fb015c 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -11,6 +11,7 @@
 #define AFFINETRANSFORM_H_
 
 #include <algorithm>
+#include <limits>
 
 #include <geomc/Hash.h>
 #include <geomc/linalg/LinalgTypes.h>
@@ -442,54 +443,49 @@ inline void rotmat(
 // rotation aligning `dir` with `alignWith`.
 // modified from http://www.iquilezles.org/www/articles/noacos/noacos.htm
 template <typename T>
-inline void rotmat_direction_align(
-        SimpleMatrix<T,4,4>* into, 
+SimpleMatrix<T,3,3> rotmat_direction_align(
         const Vec<T,3>& dir, 
         const Vec<T,3>& alignWith)
 {
     const Vec<T,3> v = dir ^ alignWith;
-    const T c = dir.dot(alignWith);
+    const T v2 = v.mag2();
+    const T c  = dir.dot(alignWith);
     
-    // handle poles
-    if (std::abs(c) == 1) {
-        into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
-        return;
+    if (c < 0 and v2 <= std::numeric_limits<T>::min()) {
+        // opposing directions; any half turn perpendicular to `dir` will do
+        Vec<T,3> a;
+        a[dir.argmin()] = 1;
+        a = (dir ^ a).unit();
+        return {
+            2*a.x*a.x - 1,     2*a.x*a.y,         2*a.x*a.z,
+            2*a.y*a.x,         2*a.y*a.y - 1,     2*a.y*a.z,
+            2*a.z*a.x,         2*a.z*a.y,         2*a.z*a.z - 1
+        };
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    // 1 + c is inaccurate when the directions nearly oppose
+    const T k = c < 0 ? (1 - c) / v2 : 1 / (1 + c);
 
-    T m[16] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y, 0,
-                v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 0, 
-                v.x*v.z*k - v.y,   v.y*v.z*k + v.x,    v.z*v.z*k + c,   0,
-                0,                 0,                  0,               1 };
-    
-    std::copy(m, m + 16, into->begin());
+    return {
+        v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
+        v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
+        v.x*v.z*k - v.y,   v.y*v.z*k + v.x,    v.z*v.z*k + c
+    };
 }
 
 template <typename T>
-SimpleMatrix<T,3,3> rotmat_direction_align(
+inline void rotmat_direction_align(
+        SimpleMatrix<T,4,4>* into, 
         const Vec<T,3>& dir, 
         const Vec<T,3>& alignWith)
 {
-    const Vec<T,3> v = dir ^ alignWith;
-    const T c = dir.dot(alignWith);
-    
-    // handle poles
-    if (std::abs(c) == 1) {
-        SimpleMatrix<T,3,3> out;
-        // 180 degree case:
-        if (c < 0) { out.set(0, 0, -1); out.set(2, 2, -1); }
-        return out;
+    const SimpleMatrix<T,3,3> m = rotmat_direction_align(dir, alignWith);
+    into->set_identity();
+    for (index_t r = 0; r < 3; ++r) {
+        for (index_t c = 0; c < 3; ++c) {
+            into->set(r, c, m(r,c));
+        }
     }
-    
-    const T k = (1 - c) / (1 - c * c);
-
-    return {
-        v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
-        v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
-        v.x*v.z*k - v.y,   v.y*v.z*k + v.x,    v.z*v.z*k + c
-    };
 }
 
 template <typename T>
@@ -567,23 +563,7 @@ inline void rotmat_direction_align(
         const Vec<T,3>& dir, 
         const Vec<T,3>& alignWith)
 {
-    const Vec<T,3> v = dir ^ alignWith;
-    const T c = dir.dot(alignWith);
-    
-    // handle poles
-    if (std::abs(c) == 1) {
-        into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
-        return;
-    }
-    
-    const T k = (1 - c) / (1 - c * c);
-
-    T m[9] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
-               v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
-               v.x*v.z*k - v.y,   v.y*v.z*k + v.x,    v.z*v.z*k + c};
-    
-    std::copy(m, m + 9, into->begin());
+    *into = rotmat_direction_align(dir, alignWith);
 }
 
 
-- 
2.43.0


From 1bfa0fff8dd3544b6f8520174f511832253eac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 046/153] fix: is_finite_real did not compile

---
 geomc/linalg/vecdetail/Vec2.h | 2 +-
 geomc/linalg/vecdetail/Vec3.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index a2a9036..99335c0 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -103,7 +103,7 @@ namespace geom {
 
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
         }
         
         /*===========================*
diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 3c15a32..a1c5aef 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -337,9 +337,9 @@ namespace geom {
         
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(this->x) and
-                   is_real(this->y) and
-                   is_real(this->z);
+            return detail::is_real(this->x) and
+                   detail::is_real(this->y) and
+                   detail::is_real(this->z);
         }
 
     private:
-- 
2.43.0


From 453ac5d0b49179156a588cbbd057784a9cb778c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 047/153] fix: Vec3 rotation about an axis had a wrong z
 coordinate

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index a1c5aef..008bd05 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -278,7 +278,7 @@ namespace geom {
             // (expected to be within 5% of "naïve" performance)
             T p0 = sum_of_products(v, y, w, z);
             T p1 = sum_of_products(u, x, w, z);
-            T p2 = sum_of_products(u, z, v, y);
+            T p2 = sum_of_products(u, x, v, y);
             
             T q0 = diff_of_products(v, z, w, y);
             T q1 = diff_of_products(w, x, u, z);
-- 
2.43.0


From 09ca915319940ee503a5ced720dacdca92b577d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 048/153] fix: Quat::exp and Quat::log did not compile

---
 geomc/linalg/Quaternion.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index fcafd45..10ea009 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -12,6 +12,12 @@
 #include <limits>
 #include <geomc/linalg/Vec.h>
 
+// used by the class, before they are defined
+namespace std {
+    template <typename T> geom::Quat<T> exp(const geom::Quat<T>& q);
+    template <typename T> geom::Quat<T> log(const geom::Quat<T>& q);
+}
+
 namespace geom {
 
 /** @ingroup linalg 
-- 
2.43.0


From d0cb13b9fe292f271b9cb96e8ebcf7daeb2a3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 049/153] fix: slicing a Rect to a different dimension did not
 compile

---
 geomc/shape/Rect.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index cb2192a..11cc2cf 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -243,9 +243,10 @@ public:
         constexpr index_t M = sizeof...(I);
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
+        typedef typename Rect<T,M>::point_t slice_t;
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            slice_t{ lo_p[indices]...},
+            slice_t{ hi_p[indices]...}
         };
         return out;
     }
@@ -264,9 +265,10 @@ public:
         constexpr index_t M = sizeof...(I);
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
+        typedef typename Rect<T,M>::point_t slice_t;
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            slice_t{ lo_p[indices]...},
+            slice_t{ hi_p[indices]...}
         };
         return out;
     }
-- 
2.43.0


From 1bc2469716e590e48895223ba7b79f6be791bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 050/153] fix: Rect::abs did not compile; point union was
 unusable on const Rects

---
 geomc/shape/Rect.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 11cc2cf..fdde302 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -302,7 +302,7 @@ public:
      *
      * @return A Rect fully containing `this` and the point `p`.
      */
-    Rect<T,N> operator|(const point_t& p) {
+    Rect<T,N> operator|(const point_t& p) const {
         // point union
         return Rect<T,N>(
             std::min(lo, p),
@@ -725,8 +725,8 @@ public:
      */
     Rect<T,N> abs() const {
         Rect<T,N> out;
-        T* lo_i     = ptype::iterator(lo);
-        T* hi_i     = ptype::iterator(hi);
+        const T* lo_i = ptype::iterator(lo);
+        const T* hi_i = ptype::iterator(hi);
         T* out_lo_i = ptype::iterator(out.lo);
         T* out_hi_i = ptype::iterator(out.hi);
         for (index_t i = 0; i < N; ++i) {
-- 
2.43.0


From 5f7aeb2c260f110c566bd37a7bfdd78337f2e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 051/153] fix: Rect exclusion clobbered its operand and
 returned an empty Rect

---
 geomc/shape/Rect.h | 68 ++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index fdde302..1020d81 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -27,6 +27,29 @@
 
 namespace geom {
 
+namespace detail {
+
+template <typename T>
+constexpr T lowest() {
+    if constexpr (std::numeric_limits<T>::has_infinity) {
+        return -std::numeric_limits<T>::infinity();
+    } else {
+        return std::numeric_limits<T>::lowest();
+    }
+}
+
+template <typename T>
+constexpr T max() {
+    if constexpr (std::numeric_limits<T>::has_infinity) {
+        return std::numeric_limits<T>::infinity();
+    } else {
+        return std::numeric_limits<T>::max();
+    }
+}
+
+} // end namespace detail
+
+
 /****************************
  * Rect Class               *
  ****************************/
@@ -417,7 +440,7 @@ public:
      * @param other Range to be excluded from the range of this `Rect`.
      * @return A new `Rect` whose range does not overlap `other`.
      */
-    Rect<T,N> operator-(const Rect<T,N>& other) {
+    Rect<T,N> operator-(const Rect<T,N>& other) const {
         // todo: instead of returning empty() when an interval is split in two,
         //   choose the larger
         // todo: make an exclude_signed() and handle empty-interval case,
@@ -425,17 +448,27 @@ public:
         //   •   a  - (-b) =   a + b
         //   • (-a) -   b  = -(a + b)
         //   • (-a) - (-b) = -(a - b)
-        Rect<T,N> out;
+        Rect<T,N> out = *this;
+        // the exclusion of an integer range does not include its endpoints
+        const T ep = std::is_integral<T>::value ? 1 : 0;
         for (index_t i = 0; i < N; ++i) {
             T b_lo = ptype::iterator(other.lo)[i];
             T a_lo = ptype::iterator(lo)[i];
             T a_hi = ptype::iterator(hi)[i];
             T b_hi = ptype::iterator(other.hi)[i];
             if (b_lo > b_hi) continue;
-            bool pick_lo = b_lo < a_lo;
-            bool pick_hi = b_hi > a_hi;
-            ptype::iterator(lo)[i] = pick_lo ? a_hi : std::min(a_hi, b_lo);
-            ptype::iterator(hi)[i] = pick_hi ? a_lo : std::max(b_hi, a_lo);
+            if (b_lo > a_hi or b_hi < a_lo) continue; // disjoint on this axis
+            bool cut_lo = b_lo <= a_lo;
+            bool cut_hi = b_hi >= a_hi;
+            if (cut_lo == cut_hi) {
+                // either nothing remains, or the range is split in two
+                ptype::iterator(out.lo)[i] = detail::max<T>();
+                ptype::iterator(out.hi)[i] = detail::lowest<T>();
+            } else if (cut_lo) {
+                ptype::iterator(out.lo)[i] = b_hi + ep;
+            } else {
+                ptype::iterator(out.hi)[i] = b_lo - ep;
+            }
         }
         return out;
     }
@@ -988,29 +1021,6 @@ public:
 }; // end Rect class
 
 
-namespace detail {
-
-template <typename T>
-constexpr T lowest() {
-    if constexpr (std::numeric_limits<T>::has_infinity) {
-        return -std::numeric_limits<T>::infinity();
-    } else {
-        return std::numeric_limits<T>::lowest();
-    }
-}
-
-template <typename T>
-constexpr T max() {
-    if constexpr (std::numeric_limits<T>::has_infinity) {
-        return std::numeric_limits<T>::infinity();
-    } else {
-        return std::numeric_limits<T>::max();
-    }
-}
-
-} // end namespace detail
-
-
 template <typename T, index_t N>
 inline Rect<T,N> operator+(typename Rect<T,N>::point_t p, const Rect<T,N>& r) {
     return r + p;
-- 
2.43.0


From c9ee4a34cc5822cd0b8e21006efde6b50c43442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 052/153] fix: Rect::intersects excluded the boundaries, and
 could report overlap with an empty Rect

---
 geomc/shape/Rect.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 1020d81..6f0d48e 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -660,9 +660,9 @@ public:
      */
     bool intersects(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
-            // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     <= ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] <= ptype::iterator(lo)[axis]) {
+            // disjoint (or empty) on this axis?
+            if (std::max(ptype::iterator(lo)[axis], ptype::iterator(box.lo)[axis]) >
+                std::min(ptype::iterator(hi)[axis], ptype::iterator(box.hi)[axis])) {
                 return false;
             }
         }
-- 
2.43.0


From fba02b0cd1ffab6f739c655341864fe42ce14554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 053/153] fix: containment and volume of empty Rects

---
 geomc/shape/Rect.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 6f0d48e..f51c29d 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -633,6 +633,7 @@ public:
      * `this`.
      */
     bool contains(const Rect<T,N>& box) const {
+        if (box.is_empty()) return true;
         for (index_t axis = 0; axis < N; axis++) {
             // inner box must not protrude along any axis
             if (ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis] or
@@ -833,6 +834,7 @@ public:
      * @return The volume of this region.
      */
     T volume() const {
+        if (is_empty()) return 0;
         T vol = 1;
         point_t dim = dimensions();
         for (index_t axis = 0; axis < N; axis++) {
-- 
2.43.0


From 96897814cb2fb76dd5a89cee61ec3c07733ae04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 054/153] fix: center and size of integer Rects with negative
 coordinates or extents

---
 geomc/shape/Rect.h | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index f51c29d..b0961f3 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -160,10 +160,17 @@ public:
             typename Rect<T,N>::point_t c,
             typename Rect<T,N>::point_t dims)
     {
-        return Rect<T,N>::spanning_corners(
-            c -  dims / 2,
-            c + (dims - endpoint_measure) / 2
-        );
+        if constexpr (std::is_integral<T>::value) {
+            point_t d = dims;
+            if constexpr (std::is_signed<T>::value) {
+                point_t neg = -dims;
+                d = std::max(dims, neg);
+            }
+            point_t lo = c - d / 2;
+            return Rect<T,N>(lo, lo + d - endpoint_measure);
+        } else {
+            return Rect<T,N>::spanning_corners(c - dims / 2, c + dims / 2);
+        }
     }
 
     /**
@@ -176,9 +183,18 @@ public:
             typename Rect<T,N>::point_t corner,
             typename Rect<T,N>::point_t dims)
     {
-        return Rect<T,N>::spanning_corners(
-            corner,
-            corner + dims - endpoint_measure);
+        if constexpr (std::is_integral<T>::value) {
+            // the corner itself is included in the range
+            Rect<T,N> out(corner);
+            for (index_t i = 0; i < N; ++i) {
+                T d = ptype::iterator(dims)[i];
+                if (d < 0) ptype::iterator(out.lo)[i] += d + 1;
+                else       ptype::iterator(out.hi)[i] += d - 1;
+            }
+            return out;
+        } else {
+            return Rect<T,N>::spanning_corners(corner, corner + dims);
+        }
     }
 
     /**
@@ -689,7 +705,12 @@ public:
      * @return The center point of this region.
      */
     point_t center() const {
-        return (hi + lo + endpoint_measure) / 2;
+        if constexpr (std::is_integral<T>::value) {
+            // division truncates, so it must not be applied to a coordinate
+            return lo + dimensions() / 2;
+        } else {
+            return (hi + lo) / 2;
+        }
     }
 
     /**
@@ -723,11 +744,7 @@ public:
         // [0|1|2|3|4]
         // [0|1|2|3]
 
-        // xxx fixme for int types
-        dim = std::abs(dim);
-        point_t diff = (dim - dimensions()) / 2;
-        lo = lo - diff;
-        hi = hi + diff;
+        *this = from_center(center(), dim);
     }
 
     /**
-- 
2.43.0


From 79501561cf278977545314278eb0ba725da8f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 055/153] fix: Rect::project and Rect::sdf measured the
 distance to the nearest corner

---
 geomc/shape/Rect.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index b0961f3..68f0f03 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -902,15 +902,25 @@ public:
      * `clip()` leaves `p` unchanged if it lies in the Rect's interior.
      */
     point_t project(point_t p) const {
+        if (not contains(p)) return clip(p);
         T* p_i = ptype::iterator(p);
         const T* lo_i = ptype::iterator(lo);
         const T* hi_i = ptype::iterator(hi);
+        // `p` is inside; move it to the closest face
+        index_t axis = 0;
+        T nearest = std::numeric_limits<T>::max();
+        T face    = lo_i[0];
         for (index_t i = 0; i < N; ++i) {
-            // for each coordinate, find the extrumum which is closest to p
-            T d_lo = std::abs(p_i[i] - lo_i[i]);
-            T d_hi = std::abs(p_i[i] - hi_i[i]);
-            p_i[i] = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            T d_lo = p_i[i] - lo_i[i];
+            T d_hi = hi_i[i] - p_i[i];
+            T d    = std::min(d_lo, d_hi);
+            if (d < nearest) {
+                nearest = d;
+                axis    = i;
+                face    = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            }
         }
+        p_i[axis] = face;
         return p;
     }
 
@@ -919,7 +929,7 @@ public:
      */
     T sdf(point_t p) const {
         T sign = contains(p) ? -1 : 1;
-        return sign * project(p).dist(p);
+        return sign * std::sqrt(ptype::mag2(project(p) - p));
     }
 
     /**
-- 
2.43.0


From fff5b485e2ddd7d279fc1df7c3da060624afdd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 056/153] fix: Rect::contact_vector truncated the displacement
 to an integer

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 68f0f03..2b48306 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -975,8 +975,8 @@ public:
         point_t v;
         bool overlap[N];
         bool all_overlap = true;
-        index_t shortest_axis;
-        index_t shortest_val = std::numeric_limits<T>::max();
+        index_t shortest_axis = 0;
+        T shortest_val = std::numeric_limits<T>::max();
         for (index_t i = 0; i < N; ++i) {
             auto r0 = this->axis(i);
             auto r1 = other.axis(i);
-- 
2.43.0


From 3f3e87d1ff29e252401f7e0ec8ebcdde41b5e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 057/153] fix: Rect::fitted_to lost the sign of the dimensions

---
 geomc/shape/Rect.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 2b48306..1086252 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -819,7 +819,9 @@ public:
             auto ratio = (d0p[i] == 0) ? 0 : (d1p[i] / d0p[i]);
             max_ratio = std::max(max_ratio, std::abs(ratio));
         }
-        return Rect<T,N>::from_center(other.center(), d0 * max_ratio);
+        point_t c = other.center();
+        point_t d = d0 * max_ratio / 2;
+        return Rect<T,N>(c - d, c + d);
     }
 
     /**
-- 
2.43.0


From 8654d9f12d39beb04bc4cdc5a7fa2489822eff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 058/153] fix: Dilated wrapping a shape left the dilation
 uninitialized

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8757cd9..bdbd5f3 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -66,7 +66,7 @@ public:
     Dilated():dilation((T)0) {}
     
     /// Wrap `s` with zero dilation.
-    Dilated(const Shape& s):shape(s) {}
+    Dilated(const Shape& s):shape(s), dilation((T)0) {}
     
     /// Dilate `s` by the amount `dilation`.
     Dilated(const Shape& s, T dilation):shape(s), dilation(dilation) {}
-- 
2.43.0


From e7dc2ef623f20a5890a6df53638755fa7d98db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 059/153] fix: dilate() of shapes did not compile

---
 geomc/shape/Dilated.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index bdbd5f3..d24941f 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -126,7 +126,7 @@ public:
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s, std::max(dilation, 0));
+    return Dilated<Shape>(s, std::max<typename Shape::elem_t>(dilation, 0));
 }
 
 /**
@@ -135,7 +135,7 @@ inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s.shape, std::max(s.dilation + dilation, 0));
+    return Dilated<Shape>(s.shape, std::max<typename Shape::elem_t>(s.dilation + dilation, 0));
 }
 
 /**
@@ -160,7 +160,7 @@ inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
  */
 template <typename T, index_t N>
 inline Sphere<T,N> dilate(const Sphere<T,N>& s, T dilation) {
-    return Sphere<T,N>(s.center, std::max(s.r + dilation, 0));
+    return Sphere<T,N>(s.center, std::max<T>(s.r + dilation, 0));
 }
 
 /**
-- 
2.43.0


From 9a1287637b17dad80ef0664e230a3df6af2d1b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 060/153] fix: Dilated::contains excluded the surface

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index d24941f..4beb744 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -77,7 +77,7 @@ public:
     
     /// Point containment test.
     bool contains(Vec<T,N> p) const {
-        return sdf(p) < 0;
+        return sdf(p) <= 0;
     }
     
     /// Signed distance function.
-- 
2.43.0


From 1a3d553f76e7a0a34bed111321c17ea6c32b966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 061/153] fix: Cylinder::contains excluded the far cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e1cb579..b43c45e 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -64,7 +64,7 @@ class Cylinder:
         T d  = a.dot(b);
         T x2 = d * d / a2;
         bool in_r = b2 - x2 <= radius * radius;
-        bool in_caps = x2 < a2 and d >= 0;
+        bool in_caps = x2 <= a2 and d >= 0;
         return in_r and in_caps;
     }
     
-- 
2.43.0


From b2170c383b68eaf43abacca0d25c6198e46e6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 062/153] fix: Cylinder::sdf was zero inside and NaN near the
 axis

---
 geomc/shape/Cylinder.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index b43c45e..c659fca 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -80,26 +80,22 @@ class Cylinder:
         Vec<T,N> a = p1 - p0;
         // vec from "base" of cylinder to p
         Vec<T,N> b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
-        // signed distance of p to the surface of the cylinder
-        T r = std::sqrt(b2 - x2) - radius;
-        // signed fractional distance along the axis to the nearest cap
-        s = std::max(-s, (s - 1));
-        // sdf is negative (inside shape) iff (s, r) in the negative quadrant
-        T sign = (s < 0 and r < 0) ? -1 : 1;
+        // signed distance of p to the surface of the infinite cylinder
+        T r = (b - s * a).mag() - radius;
+        // signed distance along the axis to the nearest cap
+        s = std::max(-s, (s - 1)) * std::sqrt(a2);
+        // inside the shape iff (s, r) in the negative quadrant;
+        // the surface is then whichever of the wall or cap is closer
+        if (s < 0 and r < 0) return std::max(s, r);
         // clamped coordinates, to project orthogonally to the wall/cap
         s = std::max(s, (T)0);
         r = std::max(r, (T)0);
-        // squared axis-parallel distance to cap
-        x2 = s * s * a2;
         // signed distance to the surface point
-        return sign * std::sqrt(r * r + x2);
+        return std::sqrt(r * r + s * s);
     }
     
     Vec<T,N> project(Vec<T,N> p) const {
-- 
2.43.0


From a631bda5c06ca8773de07a1a67f8bfdda09527cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 063/153] fix: Capsule::project and normal did not compile

---
 geomc/shape/Capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 3765eb8..96b52d0 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -61,7 +61,7 @@ public:
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
         T frac = v.dot(axis) / axis.mag2();
-        return p0 + axis * clamp(frac, 0, 1);
+        return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
     /**
-- 
2.43.0


From 195eaf6dbe2c6ee8802fb80e667e08a5cef7d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 064/153] fix: Cylinder::project and normal were NaN or
 imprecise near the axis, and wrong beyond the far rim

---
 geomc/shape/Cylinder.h | 49 ++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index c659fca..1a0594e 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -103,17 +103,14 @@ class Cylinder:
         Vec<T,N> a = p1 - p0;
         // vec from "base" of cylinder to p
         Vec<T,N> b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
+        T r_dist = (b - s * a).mag();
         // unit length radial vector
-        Vec<T,N> r = (p - p0 - s * a) / r_dist;
+        Vec<T,N> r = radial_direction(b);
         // adjust `r` and `s` to lie on the cylinder boundary
         if (s < 0 or s > 1) {
             // p projects onto the cap
@@ -135,24 +132,21 @@ class Cylinder:
         auto a = p1 - p0;
         // vec from "base" of cylinder to p
         auto b = p - p0;
-        T b2 = b.mag2(); // squared length of b (hypoteneuse)
         T a2 = a.mag2(); // squared length of axis (side 1)
         T d  = a.dot(b);
         // fractional distance along axis from 0 to 1
         T s  = d / a2;
-        // square of distance from the base to the projected axis point
-        T x2 = d * s;
         // distance of p to the axis
-        T r_dist = std::sqrt(b2 - x2);
+        T r_dist = (b - s * a).mag();
         // unit length radial vector
-        auto r = (p - p0 - s * a) / r_dist;
+        Vec<T,N> r = radial_direction(b);
         // choose the outward direction
         Vec<T,N> n;
         if (s < 0 or s > 1) {
             // p projects onto the cap
             if (r_dist > radius) {
                 // p projects onto the rim of the cap
-                n = p - (r * radius + p0);
+                n = p - (r * radius + (s < 0 ? p0 : p1));
             } else {
                 // p projects to the cap face; normal is axial
                 n = s < 0 ? -a : a;
@@ -194,6 +188,39 @@ class Cylinder:
         return (d.dot(a) > 0 ? p1 : p0) + perp;
     }
     
+protected:
+
+    // component of `v` perpendicular to the axis, as a unit vector; or zero if `v`
+    // is parallel to the axis (up to rounding).
+    Vec<T,N> unit_rejection(Vec<T,N> v) const {
+        Vec<T,N> a = p1 - p0;
+        Vec<T,N> r = v - v.project_on(a);
+        constexpr T eps = 8 * std::numeric_limits<T>::epsilon();
+        if (r.mag2() <= eps * eps * v.mag2()) return {};
+        // reject again, to remove what rounding left over
+        return (r - r.project_on(a)).unit();
+    }
+    
+    // unit vector perpendicular to the axis, in the direction of `b`;
+    // or an arbitrary perpendicular direction if `b` lies along the axis
+    Vec<T,N> radial_direction(Vec<T,N> b) const {
+        Vec<T,N> r = unit_rejection(b);
+        if (r.is_zero()) {
+            // pick the principal axis most perpendicular to ours
+            Vec<T,N> a = p1 - p0;
+            index_t k  = 0;
+            for (index_t i = 1; i < N; ++i) {
+                if (std::abs(a[i]) < std::abs(a[k])) k = i;
+            }
+            Vec<T,N> e;
+            e[k] = 1;
+            r = unit_rejection(e);
+        }
+        return r;
+    }
+
+public:
+    
     /// Ray/shape intersection test.
     Rect<T,1> intersect(const Ray<T,N>& ray) const {
         Vec<T,N> a = p1 - p0;
-- 
2.43.0


From b83eaf46620e8155b57182ac74dd0651617ece77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 065/153] fix: Cylinder::convex_support was NaN or off the
 shape along the axis

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 1a0594e..3d6cf6c 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -184,7 +184,7 @@ class Cylinder:
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
         Vec<T,N> a = p1 - p0;
-        Vec<T,N> perp = (d - d.project_on(a)).unit() * radius;
+        Vec<T,N> perp = unit_rejection(d) * radius;
         return (d.dot(a) > 0 ? p1 : p0) + perp;
     }
     
-- 
2.43.0


From a874a1a301dba9a7aaa84aa187a5ade38b1c5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 066/153] fix: Cylinder::bounds was NaN when rounding made a
 cap extent imaginary

---
 geomc/shape/Cylinder.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 3d6cf6c..54c0704 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -169,12 +169,20 @@ class Cylinder:
         // construct two bounding boxes, one for each disk cap.
         // we do this by finding the extent of the cap along each axis.
         Vec<T,N> a  = p1 - p0;
-        // square of unit normal's components
-        // aka square of projection of normal onto axis of interest
-        Vec<T,N> n2 = (a * a) / a.mag2(); 
-        // solve for the remaining side of the triangle
-        // which happens to be the projection of a perpendicular vector
-        Vec<T,N> c0 = radius * std::sqrt((Vec<T,N>::ones - n2));
+        // the extent of a cap along an axis is the projection of a vector
+        // perpendicular to the cylinder's axis, i.e. radius * sqrt(1 - n[i]^2),
+        // where n is the unit normal. the other components of n^2 sum to
+        // 1 - n[i]^2; adding them avoids cancellation.
+        Vec<T,N> a2 = a * a;
+        T mag2 = a.mag2();
+        Vec<T,N> c0;
+        for (index_t i = 0; i < N; ++i) {
+            T k = 0;
+            for (index_t j = 0; j < N; ++j) {
+                if (j != i) k += a2[j];
+            }
+            c0[i] = radius * std::sqrt(k / mag2);
+        }
         // construct the disk bounds at the end cap positions
         Rect<T,N> b0(p0 - c0, p0 + c0);
         Rect<T,N> b1(p1 - c0, p1 + c0);
-- 
2.43.0


From 1603d4f570e8b54f73c33b75301399616674c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 067/153] fix: Extruded::normal did not compile

---
 geomc/shape/Extruded.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index 72ce502..b6398a0 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -104,7 +104,7 @@ public:
                 T wall_dist = std::abs(base.sdf(p_base));
                 if (cap_dist < wall_dist) {
                     // the cap is nearest. use its normal
-                    return {Vec<T,N-1>{}, (cap_h >= height.hi) ? 1 : -1};
+                    return {Vec<T,N-1>{}, (T)((cap_h >= height.hi) ? 1 : -1)};
                 }
             }
             // the wall is nearest, use its normal
@@ -113,7 +113,7 @@ public:
             // p beyond the top or bottom cap
             if (inside_base) {
                 // p directly above or below a cap
-                return {Vec<T,N-1>{}, (h >= height.hi) ? 1 : -1};
+                return {Vec<T,N-1>{}, (T)((h >= height.hi) ? 1 : -1)};
             } else {
                 // p is outside the base shape
                 Vec<T,N> cap_pt {
-- 
2.43.0


From 0642d0c2115f5ded6a0a341918a48129a8d06eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 068/153] fix: Cylinder ray intersection of rays parallel to
 the axis was decided by rounding

---
 geomc/shape/Cylinder.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 54c0704..6422969 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -234,16 +234,21 @@ public:
         Vec<T,N> a = p1 - p0;
         Vec<T,N> b = ray.origin - p0;
         T a2 = a.mag2();
-        T b2 = b.mag2();
         T d  = a.dot(b);
         T s  = d / a2;  // fractional projection of ray origin onto axis
-        T x2 = d * s;
         T m  = ray.direction.dot(a);
         
+        // components of the ray perpendicular to the axis
+        Vec<T,N> b_perp = b - s * a;
+        Vec<T,N> v_perp = ray.direction - (m / a2) * a;
+        constexpr T eps = 8 * std::numeric_limits<T>::epsilon();
+        
         // construct quadratic coeffs
-        T k0 = ray.direction.mag2() - m * m / a2;
-        T k1 = 2 * (b.dot(ray.direction) - d * m / a2);
-        T k2 = b2 - x2 - radius * radius;
+        T k0 = v_perp.mag2();
+        T k1 = 2 * b_perp.dot(v_perp);
+        T k2 = b_perp.mag2() - radius * radius;
+        // a ray parallel to the axis (up to rounding) does not change its distance to it
+        if (k0 <= eps * eps * ray.direction.mag2()) k0 = k1 = 0;
         
         // setup for cylinder intersection
         T roots[2];
@@ -252,10 +257,10 @@ public:
         // construct an interval holding the ray's overlap with the infinite cylinder
         if (k0 != 0 and quadratic_solve(roots, k0, k1, k2)) {
             interval = Rect<T,1>::spanning_corners(roots[0], roots[1]);
-        } else if (k2 < 0) {
+        } else if (k2 <= 0) {
             // if there is no intersection, then it might be the case that 
             // the ray points exactly down the interior of the cylinder, which
-            // can only happen if the ray origin is inside too (k2 < 0). also
+            // can only happen if the ray origin is inside too (k2 <= 0). also
             // due to precision this manifests sometimes when there is one root:
             // when v and a are aligned then k0 is 0, and the equation can take the form
             // `0x^2 + (small)x + c = 0`; this should be treated the same as 'no solution'.
-- 
2.43.0


From 81b8ba1a2a0bf070c6d157d29ecbca977b36a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 069/153] fix: Frustum ray intersection confused rays parallel
 to the axis and in the base plane with rays through the tip

---
 geomc/shape/Frustum.h | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 38c1f43..1898288 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -107,34 +107,37 @@ public:
         
         // first make our ray subspace basis orthogonal:
         Vec<T,N> o_ortho = ray.origin - ray.origin.project_on(ray.direction);
+        
+        // does the ray pass through the origin (up to rounding)?
+        constexpr T eps = 8 * std::numeric_limits<T>::epsilon();
+        if (o_ortho.mag2() <= eps * eps * ray.origin.mag2()) [[unlikely]] {
+            T dh = ray.direction[N-1];
+            if (dh == 0) {
+                // the ray lies in the h=0 plane, and intersects the
+                // frustum tip, if it's included in the height range
+                T s = -ray.origin.fraction_on(ray.direction);
+                return Rect<T,1>(s, s) & slab_range;
+            }
+            // the frustum intersection is full iff the ray is 
+            // inside the the frustum; else it is empty.
+            return base.contains((ray.direction / dh).template resized<N-1>())
+                ? slab_range         // full range  & slab_range
+                : Rect<T,1>::empty;  // empty range & slab_range
+        }
         Vec<T,N> z_plus;
         z_plus[N-1] = 1;
         // project the Z+ axis to the ray subspace. (the point on the projected ray
         // which is closest to the origin is a multiple of this point)
         // todo: this can probably be optimized:
         Vec<T,N> o_base = z_plus.project_on(ray.direction) + z_plus.project_on(o_ortho);
-        // project V to the h=0 plane
-        Vec<T,N> v_base = ray.direction - ray.direction.project_on(o_base);
-        
         // handle degenerate cases
         if (o_base[N-1] == 0) {
-            // the ray lies in the h=0 plane
-            if (o_base == (T)0) [[unlikely]] {
-                // the ray passes through the origin, and intersects the
-                // frustum tip, if it's included in the height range
-                T s = ray.direction.fraction_on(ray.origin);
-                return Rect<T,1>(s, s) & slab_range;
-            } else {
-                // the ray does not pass through the origin
-                return Rect<T,1>::empty;
-            }
-        } else if (v_base == (T)0) {
-            // ray passes through the origin. the frustum intersection is full iff the ray is 
-            // inside the the frustum; else it is empty.
-            return base.contains(o_base.template resized<N-1>())
-                ? slab_range         // full range  & slab_range
-                : Rect<T,1>::empty;  // empty range & slab_range
+            // the ray lies in the h=0 plane, but does not pass through the origin
+            return Rect<T,1>::empty;
         }
+        // find the direction of the subspace which lies in the h=0 plane.
+        // (the terms are orthogonal, so they cannot cancel)
+        Vec<T,N> v_base = ray.direction * o_ortho[N-1] - o_ortho * ray.direction[N-1];
         // put `o` onto the h=1 plane
         o_base /= o_base[N-1];
         
-- 
2.43.0


From 3f07d7193c48b4ed44f8d50f82a5370ecfea5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:57 +0000
Subject: [PATCH 070/153] fix: Frustum ray intersection chose the part of the
 ray beyond the tip by its parameter instead of its height

---
 geomc/shape/Frustum.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 1898288..b065b3a 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -192,7 +192,8 @@ public:
             // if the two hits are on either side of h=0, then the interval is inverted.
             // (we have already handled the ray through the origin case).
             // which of the two half-infinite intervals should be intersected with the slab?
-            s = (slab_range.lo < 0)
+            // the one which is on the same side of h=0 as the shape:
+            s = ((h0 < 0) == (clipped_height().lo < 0))
                 ? Rect<T,1>(std::numeric_limits<T>::lowest(), s.lo)
                 : Rect<T,1>(s.hi, std::numeric_limits<T>::max());
         }
-- 
2.43.0


From 7ac34d44b6e212f019ccf915ffcba302a5f70746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 071/153] fix: Simplex ray intersection stopped early on
 touching one face

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index e9d912f..82024cc 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -236,7 +236,7 @@ public:
             if (linear_solve(m, 2, B)) {
                 // intersect all the ranges of s for which 0 <= w_i <= 1.
                 Rect<T,1> interval = Rect<T,1>::full;
-                for (index_t i = 0; i < N + 1 and interval.hi > interval.lo; ++i) {
+                for (index_t i = 0; i < N + 1 and interval.hi >= interval.lo; ++i) {
                     // w_i = p_i + k_i * s
                     // solve for w_i = 0 and w_i = 1:
                     T p_i = B[0][i];
-- 
2.43.0


From a3b2f2177fa50947244926fc1f557f1e511991d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 072/153] fix: Transforming a Plane mirrored its position
 through the origin

---
 geomc/shape/Plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index a134e65..31d5f49 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -150,10 +150,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d; // a point on the plane
+        Vec<T,N> p0 = origin(); // a point on the plane
         Vec<T,N> p1 = xf.apply(p0); // the new position of that point
         normal = xf.apply_normal(normal).unit(); // construct a plane with transformed normal
-        d = p1.dot(normal); // and transformed position
+        d = -p1.dot(normal); // and transformed position
     }
     
     /**
@@ -161,10 +161,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply_inverse(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d;
+        Vec<T,N> p0 = origin();
         Vec<T,N> p1 = xf.apply_inverse(p0);
         normal = xf.apply_inverse_normal(normal).unit();
-        d = p1.dot(normal);
+        d = -p1.dot(normal);
     }
     
     /**
-- 
2.43.0


From 032ec4428aa0796566acf6a6de591ac818b576f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 073/153] fix: Plane::intersects(Sphere) was inverted

---
 geomc/shape/Plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 31d5f49..2a349e0 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -182,7 +182,7 @@ public:
      * @return `true` if and only if this plane passes through `s`.
      */
     inline bool intersects(const Sphere<T,N> &s) const {
-        return distance(s.center) >= s.r;
+        return std::abs(distance(s.center)) <= s.r;
     }
     
     /**
-- 
2.43.0


From 57f96c19c1f29beedd91d2d031a96451d23f47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 074/153] fix: Plane::intersects(hull) was always false

---
 geomc/shape/Plane.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 2a349e0..fefcc55 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -200,9 +200,10 @@ public:
                 // if a point lies on the plane, or another point lies on the
                 // other side of the plane, then this shape crosses the plane.
                 if (dist == 0 || ((dist < 0) != negative)){
-                    return false;
+                    return true;
                 }
             } else {
+                if (dist == 0) return true;
                 negative = dist < 0;
             }
         }
-- 
2.43.0


From 38eae3bf06c09cdac69d55a23d8db112271e0e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 075/153] fix: dilate(Plane) moved the plane against its normal

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 4beb744..0d4d386 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -147,7 +147,7 @@ inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dil
  */
 template <typename T, index_t N>
 inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
-    p.d += dilation;
+    p.d -= dilation;
     return p;
 }
 
-- 
2.43.0


From 048e8a9a17a0a015bd489f361c2e91921efccb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 076/153] fix: trace_simplex tested surface coordinates it had
 not solved for, and returned a ray parameter from out of bounds

---
 geomc/shape/Simplex.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 82024cc..0be6d1c 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -570,9 +570,9 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     bases[N - 1] = -ray.direction;
     
     // linear solve
+    // (all the surface coordinates are needed, to decide whether the ray hit)
     Vec<T,N> x = ray.origin - verts[0];
-    index_t skip = uv ? 0 : N - 1;
-    if (not linear_solve(bases, 1, &x, skip)) return false;
+    if (not linear_solve(bases, 1, &x)) return false;
     
     // inside simplex?
     T sum = 0;
@@ -583,7 +583,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     if (sum > 1) return false;
     
     // output result
-    *s  = x[N];
+    *s  = x[N - 1];
     if (uv) *uv = x.template resized<N-1>();
     return true;
 }
-- 
2.43.0


From 2b42db3e961fe273f34ee2b9de29687cd716c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 077/153] fix: Simplex::is_facing ignored some of the
 coordinates

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 0be6d1c..4238e49 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -320,7 +320,7 @@ public:
                 
                 // check that the coordinates of `p` are inside the simplex
                 T sum = 0;
-                for (index_t i = n_null; i < n_bases; ++i) {
+                for (index_t i = n_null; i < N; ++i) {
                     sum += x[i];
                     if (x[i] < 0 or sum > 1) return false;
                 }
-- 
2.43.0


From ff32dc79692d26b013cba4e63ba8236a210b5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 078/153] fix: Simplex::measure was zero for subspaces and
 could be negative

---
 geomc/shape/Simplex.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 4238e49..cd75eb2 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -383,7 +383,7 @@ public:
             if (n == 3) return (pts[1] - pts[0]).cross(pts[2] - pts[0]).mag() / 2;
         }
         // full volume
-        if (n == N + 1) return volume();
+        if (n == N + 1) return std::abs(volume());
         // otherwise, construct the basis of the simplex.
         // we'll use it to compute the volume
         Vec<T,N> bases[N];
@@ -397,12 +397,13 @@ public:
         // divided by n factorial. i suspect the gram matrix could probably
         // be computed more efficiently, because it's symmetric
         T buf[N * N];
-        WrapperMatrix<T,0,0> b {buf, n, n};
-        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n};
-        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n};
+        const index_t n_bases = n - 1;
+        WrapperMatrix<T,0,0> b {buf, n_bases, n_bases};
+        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n_bases};
+        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n_bases};
         // (n x n) = (n x N) * (N x n)
         mul(&b, m0, m1);
-        return std::sqrt(std::abs(det_destructive(buf, n))) / k;
+        return std::sqrt(std::abs(det_destructive(buf, n_bases))) / k;
     }
     
     /**
-- 
2.43.0


From 6f53bf97e0b695f56fbdf61481ce1becd395bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 079/153] fix: Simplex::project did not accept constant points

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index cd75eb2..000bc97 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -469,7 +469,7 @@ public:
     }
     
     
-    Vec<T,N> project(Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
+    Vec<T,N> project(const Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
         detail::SimplexProjection<T,N> proj {
             *this,
             p,
-- 
2.43.0


From 21eca32de9600298cc016cb10199ce8d81335b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 080/153] fix: Simplex::contains was true for some points of
 simplexes with coincident vertices

---
 geomc/shape/Simplex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 000bc97..67b2952 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -420,6 +420,13 @@ public:
      */
     bool contains(const Vec<T,N>& p) const {
         if (n < N + 1) return false;
+        // a simplex with coincident points is empty. (the linear system below is
+        // singular then, but rounding can keep its solver from noticing).
+        for (index_t i = 1; i < n; ++i) {
+            for (index_t j = 0; j < i; ++j) {
+                if (pts[i] == pts[j]) return false;
+            }
+        }
         // solve for barycentric coordinates x:
         // Σ (1, v[i]) * x[i] = (1, p)
         
-- 
2.43.0


From d77b2148de73e08de58982277d1c23f5cbf5cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 081/153] fix: Sphere::intersects(Sphere) ignored the radius of
 the other sphere

---
 geomc/shape/Sphere.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 01f5821..53fa9c2 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -70,7 +70,8 @@ public:
      * @return `true` if `s` overlaps with this sphere's volume, false otherwise.
      */
     bool intersects(Sphere s) const {
-        return ptype::mag2(center - s.center) <= r * r;
+        T r_sum = r + s.r;
+        return ptype::mag2(center - s.center) <= r_sum * r_sum;
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-- 
2.43.0


From e41aeb6540dd7fa84ec868cb8416a2aa91ef775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 082/153] fix: Sphere::intersects(Rect) ignored the position of
 the sphere

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 53fa9c2..e97aa13 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -75,7 +75,7 @@ public:
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-        return rect.dist2(r) <= r * r;
+        return rect.dist2(center) <= r * r;
     }
     
     point_t convex_support(point_t d) const {
-- 
2.43.0


From 3f55903880350252c86fca3a07b7714be9acd557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 083/153] fix: Convex::intersects did not compile

---
 geomc/shape/Shape.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Shape.h b/geomc/shape/Shape.h
index dec8734..8cbf59a 100644
--- a/geomc/shape/Shape.h
+++ b/geomc/shape/Shape.h
@@ -86,6 +86,11 @@ class Bounded {
 };
 
 
+// (defined in Intersect.h)
+template <typename T, index_t N>
+bool intersects(const AnyConvex<T,N>& shape_a, const AnyConvex<T,N>& shape_b);
+
+
 /**
  * @brief Base class describing convex shapes in N-dimensional space.
  *
@@ -119,13 +124,15 @@ class Convex : public Bounded<T,N,Derived> {
     /**
      * @brief Convex shape overlap test.
      * 
+     * Requires `geomc/shape/Intersect.h`.
+     * 
      * @return True if and only if this convex shape overlaps `other`; false otherwise.
      */
     template <typename Shape>
     bool intersects(const Convex<T,N,Shape>& other) const {
-        return gjk_intersect(
-            as_any_convex(*this),
-            as_any_convex(other));
+        return geom::intersects<T,N>(
+            as_any_convex((const Derived&) *this),
+            as_any_convex((const Shape&)   other));
     }
     
     /**
-- 
2.43.0


From 774565d4815e93c90f0a8002546c8700763be2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 084/153] fix: Oriented Rect intersection did not compile in
 dimensions other than 2 and 3, or for const Rects

---
 geomc/shape/Oriented.h                   | 3 ++-
 geomc/shape/shapedetail/SeparatingAxis.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 7dda825..db0c51a 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -2,6 +2,7 @@
 
 #include <geomc/linalg/AffineTransform.h>
 #include <geomc/shape/Rect.h>
+#include <geomc/shape/Intersect.h>
 #include <geomc/shape/shapedetail/SeparatingAxis.h>
 
 
@@ -204,7 +205,7 @@ public:
      * @param b1 OritentedRect to test against.
      * @return `true` if and only if `this` overlaps with `b1`; `false` otherwise.
      */
-    bool intersects(const Oriented< Rect<T,N> >& b1) {
+    bool intersects(const Oriented< Rect<T,N> >& b1) const {
         // we will make ourselves axis-aligned; this is the same as applying
         // the inverse of our xf. We apply the inverse of xf to b1 too,
         // to preserve the relationhip between the us. From this, we
diff --git a/geomc/shape/shapedetail/SeparatingAxis.h b/geomc/shape/shapedetail/SeparatingAxis.h
index 48894a7..1cbdd64 100644
--- a/geomc/shape/shapedetail/SeparatingAxis.h
+++ b/geomc/shape/shapedetail/SeparatingAxis.h
@@ -150,9 +150,10 @@ class RectAxisHelper<T,2> : public RectAxisHelperBase<T,2> {
 
 template <typename T, index_t N, typename Enable=void>
 class RectIntersector {
+    public:
     
     static inline bool intersect(const Oriented<Rect<T,N> >& b0, const Rect<T,N>& b1) {
-        return gjk_intersect(b0, b1);
+        return geom::intersects<T,N>(as_any_convex(b0), as_any_convex(b1));
     }
 };
 
-- 
2.43.0


From bfdb018b4b81720d878dcc40c04481705fb92232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 085/153] fix: Copies of an Intersector worked in the buffers
 of the original

---
 geomc/shape/Intersect.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 9cb0f1e..6c31fb9 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -40,6 +40,33 @@ protected:
 
 public:
 
+    Intersector() = default;
+
+    // (the buffer pointers must not refer to the buffers of the original)
+    Intersector(const Intersector<T,N>& other):
+        max_iterations(other.max_iterations),
+        separation_axis(other.separation_axis),
+        iterations(other.iterations),
+        was_degenerate(other.was_degenerate),
+#if DEBUG_INTERSECTION
+        debug_file(other.debug_file),
+#endif
+        simplex_a(*other.cur_simplex),
+        simplex_b(*other.next_simplex) {}
+
+    Intersector<T,N>& operator=(const Intersector<T,N>& other) {
+        max_iterations  = other.max_iterations;
+        separation_axis = other.separation_axis;
+        iterations      = other.iterations;
+        was_degenerate  = other.was_degenerate;
+#if DEBUG_INTERSECTION
+        debug_file      = other.debug_file;
+#endif
+        *cur_simplex    = *other.cur_simplex;
+        *next_simplex   = *other.next_simplex;
+        return *this;
+    }
+
     const Simplex<T,N>& simplex() const { return *cur_simplex; }
     
     bool intersects(
-- 
2.43.0


From 917dbe03d207b9f0fcdbc4c8fa30810b88d59b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 086/153] fix: an Intersector which had found an overlap
 searched in direction zero the next time

---
 geomc/shape/Intersect.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 6c31fb9..49b86fb 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -73,6 +73,8 @@ public:
         const AnyConvex<T,N>& shape_a,
         const AnyConvex<T,N>& shape_b)
     {
+        // the previous test may not have found a direction to start from
+        if (separation_axis.is_zero()) separation_axis = Vec<T,N>::unit_x;
         // `a` is a point on the minkowski difference
         Vec<T,N> a = shape_a.convex_support( separation_axis) -
                      shape_b.convex_support(-separation_axis);
-- 
2.43.0


From 634cb528c4ba2ac70673907c97354ee5e2c7526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 087/153] fix: restore the line endings of three files, which
 earlier fixes had changed

---
 geomc/linalg/Ray.h            | 310 ++++++++++++++--------------
 geomc/linalg/vecdetail/Vec2.h | 370 +++++++++++++++++-----------------
 geomc/linalg/vecdetail/Vec4.h | 296 +++++++++++++--------------
 3 files changed, 488 insertions(+), 488 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index e6c0a81..dc564c3 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -1,155 +1,155 @@
-#pragma once
-
-#ifdef GEOMC_USE_STREAMS
-#include <iostream>
-#endif
-
-#include <geomc/linalg/LinalgTypes.h>
-#include <geomc/linalg/Vec.h>
-
-
-namespace geom {
-
-/**
- * @brief Ray class.
- * @tparam T Coordinate type.
- * @tparam N Dimensionality.
- * @ingroup linalg
- */
-template <typename T, index_t N>
-class Ray {
-public:
-    /**
-     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
-     * if `N` is greater than 1; or a `T` if `N` is 1.
-     */
-    typedef typename PointType<T,N>::point_t point_t;
-    /// Origin of ray.
-    point_t origin;
-    /// Direction of ray.
-    point_t direction;
-
-    /*************************
-     * Structors             *
-     *************************/
-    
-    /// Construct a ray through the origin directed along the +x axis.
-    Ray():origin((T)0),direction((T)0) {
-        direction[0] = 1; //x axis
-    }
-    
-    /// Construct a ray through the point `o` with direction `v`.
-    Ray(point_t o, point_t v):
-        origin(o),
-        direction(v) {}
-
-    /*************************
-     * Operators             *
-     *************************/
-
-    /// Return a ray pointing in the opposite direction.
-    Ray<T,N> operator-() const {
-        return {origin, -direction};
-    }
-
-    /*************************
-     * Public Methods        *
-     *************************/
-    
-    /// Change the dimensionality of this Ray.
-    template <index_t M>
-    inline Ray<T,M> resized() const {
-        return Ray<T,M>(
-            origin.   template resized<M>(),
-            direction.template resized<M>());
-    }
-
-    /// Return the point along this ray's direction, at distance `d` from the ray origin.
-    inline point_t at_distance(T d) const {
-        return origin + direction.unit() * d;
-    }
-
-    /// Return the point `origin + s * direction`.
-    inline point_t at_multiple(T s) const {
-        return origin + direction * s;
-    }
-    
-    /**
-     * @brief Find the point on the ray nearest to `p` by orhtogonally
-     * projecting `p` onto it.
-     */
-    inline point_t project(point_t p) const {
-        return (p - origin).project_on(direction) + origin;
-    }
-    
-    /// Signed distance from `p` to the nearest point on the ray.
-    inline T sdf(point_t p) const {
-        return std::sqrt(dist2(p));
-    }
-    
-    /// Compute the square of the distance from `p` to the nearest point on the ray.
-    inline T dist2(point_t p) const {
-        return p.dist2(project(p));
-    }
-    
-}; // class Ray
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
-    return r.at_multiple(s);
-}
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
-    return r.at_multiple(s);
-}
-    
-#ifdef GEOMC_USE_STREAMS
-    
-/** @ingroup linalg
- * Ray stream output, in the form:
- * 
- *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
- * where `x` is the origin and `v` is the direction.
- * @related Ray
- */
-template <typename T, index_t N>
-inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
-    stream << "<" << r.origin << " + s * " << r.direction << ">";
-    return stream;
-}
-
-#endif // GEOMC_USE_STREAMS
-
-
-template <typename T, index_t N, typename H>
-struct Digest<Ray<T,N>, H> {
-    H operator()(const Ray<T,N> &r) const {
-        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<H>(nonce, r.origin, r.direction);
-    }
-};
-
-} // namespace geom
-
-
-template <typename T, index_t N>
-struct std::hash<geom::Ray<T,N>> {
-    size_t operator()(const geom::Ray<T,N> &v) const {
-        return geom::hash<geom::Ray<T,N>, size_t>(v);
-    }
-};
+#pragma once
+
+#ifdef GEOMC_USE_STREAMS
+#include <iostream>
+#endif
+
+#include <geomc/linalg/LinalgTypes.h>
+#include <geomc/linalg/Vec.h>
+
+
+namespace geom {
+
+/**
+ * @brief Ray class.
+ * @tparam T Coordinate type.
+ * @tparam N Dimensionality.
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+class Ray {
+public:
+    /**
+     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
+     * if `N` is greater than 1; or a `T` if `N` is 1.
+     */
+    typedef typename PointType<T,N>::point_t point_t;
+    /// Origin of ray.
+    point_t origin;
+    /// Direction of ray.
+    point_t direction;
+
+    /*************************
+     * Structors             *
+     *************************/
+    
+    /// Construct a ray through the origin directed along the +x axis.
+    Ray():origin((T)0),direction((T)0) {
+        direction[0] = 1; //x axis
+    }
+    
+    /// Construct a ray through the point `o` with direction `v`.
+    Ray(point_t o, point_t v):
+        origin(o),
+        direction(v) {}
+
+    /*************************
+     * Operators             *
+     *************************/
+
+    /// Return a ray pointing in the opposite direction.
+    Ray<T,N> operator-() const {
+        return {origin, -direction};
+    }
+
+    /*************************
+     * Public Methods        *
+     *************************/
+    
+    /// Change the dimensionality of this Ray.
+    template <index_t M>
+    inline Ray<T,M> resized() const {
+        return Ray<T,M>(
+            origin.   template resized<M>(),
+            direction.template resized<M>());
+    }
+
+    /// Return the point along this ray's direction, at distance `d` from the ray origin.
+    inline point_t at_distance(T d) const {
+        return origin + direction.unit() * d;
+    }
+
+    /// Return the point `origin + s * direction`.
+    inline point_t at_multiple(T s) const {
+        return origin + direction * s;
+    }
+    
+    /**
+     * @brief Find the point on the ray nearest to `p` by orhtogonally
+     * projecting `p` onto it.
+     */
+    inline point_t project(point_t p) const {
+        return (p - origin).project_on(direction) + origin;
+    }
+    
+    /// Signed distance from `p` to the nearest point on the ray.
+    inline T sdf(point_t p) const {
+        return std::sqrt(dist2(p));
+    }
+    
+    /// Compute the square of the distance from `p` to the nearest point on the ray.
+    inline T dist2(point_t p) const {
+        return p.dist2(project(p));
+    }
+    
+}; // class Ray
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
+    return r.at_multiple(s);
+}
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
+    return r.at_multiple(s);
+}
+    
+#ifdef GEOMC_USE_STREAMS
+    
+/** @ingroup linalg
+ * Ray stream output, in the form:
+ * 
+ *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
+ * where `x` is the origin and `v` is the direction.
+ * @related Ray
+ */
+template <typename T, index_t N>
+inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
+    stream << "<" << r.origin << " + s * " << r.direction << ">";
+    return stream;
+}
+
+#endif // GEOMC_USE_STREAMS
+
+
+template <typename T, index_t N, typename H>
+struct Digest<Ray<T,N>, H> {
+    H operator()(const Ray<T,N> &r) const {
+        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
+    }
+};
+
+} // namespace geom
+
+
+template <typename T, index_t N>
+struct std::hash<geom::Ray<T,N>> {
+    size_t operator()(const geom::Ray<T,N> &v) const {
+        return geom::hash<geom::Ray<T,N>, size_t>(v);
+    }
+};
diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 99335c0..7513aea 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotated(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
-            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotated(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index b5c09ca..ddedb0d 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -1,148 +1,148 @@
-/*
- * Vec4.h
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#ifndef VECTOR4D_H_
-#define VECTOR4D_H_
-
-#include <cctype>
-#include <algorithm>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /*===========================*
-     * Global Functions          *
-     *===========================*/
-
-    template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
-        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
-        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
-        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
-        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
-        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
-        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    /*===========================*
-     * Vector Class              *
-     *===========================*/
-
-    /** @ingroup linalg
-     *  @brief 4D specialization of vector class.
-     * 
-     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y,z,w} // conventional Euclidean coordinate names
-     *     v.{s,t,u,v} // conventional parameterization coordinate names
-     *     v.{r,g,b,a} // conventional color tuple coordinate names
-     * 
-     * with `x`, `s`, and `r` all referring to the same element.
-     */
-    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
-    public:
-        
-        /// @brief (1, 0, 0, 0) constant
-        static const Vec<T,4> X_AXIS;
-        /// @brief (0, 1, 0, 0) constant
-        static const Vec<T,4> Y_AXIS;
-        /// @brief (0, 0, 1, 0) constant
-        static const Vec<T,4> Z_AXIS;
-        /// @brief (0, 0, 0, 1) constant
-        static const Vec<T,4> W_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-
-        
-        /// Construct vector with all elements set to 0.
-        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
-        
-        /// Construct a vector with elements `(x, y, z, w)`.
-        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
-
-        /// Construct a vector with elements copied from the 4-element array `v`.
-        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
-
-        /**
-         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
-         * and `w` as the final element.
-         */
-        template <typename U>
-        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xyz.x, xyz.y, xyz.z, w
-        } {}
-        
-        template <typename U>
-        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xy.x, xy.y, z, w
-        } {}
-
-        /// Construct a vector with all elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
-        
-        /*===========================*
-         * Arithmetic                *
-         *===========================*/
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
-        
-        using detail::VecCommon< T, 4, Vec<T,4> >::add;
-        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
-        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
-        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
-
-        /// @return `(dx, dy, dz, dw)` added with `this`
-        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
-                            detail::VecBase<T,4>::y+dy, 
-                            detail::VecBase<T,4>::z+dz, 
-                            detail::VecBase<T,4>::w+dw);
-        }
-        
-        /// @return `(dx, dy, dz, dw)` subtracted from `this`
-        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
-                            detail::VecBase<T,4>::y-dy, 
-                            detail::VecBase<T,4>::z-dz, 
-                            detail::VecBase<T,4>::w-dw);
-        }
-        
-        /// @return Element-wise scaled copy
-        Vec<T,4> scale(T a, T b, T c, T d) const {
-            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
-                            b*detail::VecBase<T,4>::y, 
-                            c*detail::VecBase<T,4>::z, 
-                            d*detail::VecBase<T,4>::w);
-        }
-
-        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
-        T dot(T xx, T yy, T zz, T ww) const {
-            return (detail::VecBase<T,4>::x * xx) + 
-                   (detail::VecBase<T,4>::y * yy) + 
-                   (detail::VecBase<T,4>::z * zz) + 
-                   (detail::VecBase<T,4>::w * ww);
-        }
-        
-    }; //end Vec4 definition
-    
-    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
-
-} //end namespace geom
-
-#endif /* VECTOR4D_H_ */
+/*
+ * Vec4.h
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#ifndef VECTOR4D_H_
+#define VECTOR4D_H_
+
+#include <cctype>
+#include <algorithm>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /*===========================*
+     * Global Functions          *
+     *===========================*/
+
+    template <typename T> const Vec<T,4> from_argb(int aRGB) {
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    template <typename T> const Vec<T,4> from_rgba(int rgba) {
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    /*===========================*
+     * Vector Class              *
+     *===========================*/
+
+    /** @ingroup linalg
+     *  @brief 4D specialization of vector class.
+     * 
+     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y,z,w} // conventional Euclidean coordinate names
+     *     v.{s,t,u,v} // conventional parameterization coordinate names
+     *     v.{r,g,b,a} // conventional color tuple coordinate names
+     * 
+     * with `x`, `s`, and `r` all referring to the same element.
+     */
+    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
+    public:
+        
+        /// @brief (1, 0, 0, 0) constant
+        static const Vec<T,4> X_AXIS;
+        /// @brief (0, 1, 0, 0) constant
+        static const Vec<T,4> Y_AXIS;
+        /// @brief (0, 0, 1, 0) constant
+        static const Vec<T,4> Z_AXIS;
+        /// @brief (0, 0, 0, 1) constant
+        static const Vec<T,4> W_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+
+        
+        /// Construct vector with all elements set to 0.
+        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
+        
+        /// Construct a vector with elements `(x, y, z, w)`.
+        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
+
+        /// Construct a vector with elements copied from the 4-element array `v`.
+        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
+
+        /**
+         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
+         * and `w` as the final element.
+         */
+        template <typename U>
+        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xyz.x, xyz.y, xyz.z, w
+        } {}
+        
+        template <typename U>
+        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xy.x, xy.y, z, w
+        } {}
+
+        /// Construct a vector with all elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
+        
+        /*===========================*
+         * Arithmetic                *
+         *===========================*/
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
+        
+        using detail::VecCommon< T, 4, Vec<T,4> >::add;
+        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
+        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
+        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
+
+        /// @return `(dx, dy, dz, dw)` added with `this`
+        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
+                            detail::VecBase<T,4>::y+dy, 
+                            detail::VecBase<T,4>::z+dz, 
+                            detail::VecBase<T,4>::w+dw);
+        }
+        
+        /// @return `(dx, dy, dz, dw)` subtracted from `this`
+        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
+                            detail::VecBase<T,4>::y-dy, 
+                            detail::VecBase<T,4>::z-dz, 
+                            detail::VecBase<T,4>::w-dw);
+        }
+        
+        /// @return Element-wise scaled copy
+        Vec<T,4> scale(T a, T b, T c, T d) const {
+            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
+                            b*detail::VecBase<T,4>::y, 
+                            c*detail::VecBase<T,4>::z, 
+                            d*detail::VecBase<T,4>::w);
+        }
+
+        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
+        T dot(T xx, T yy, T zz, T ww) const {
+            return (detail::VecBase<T,4>::x * xx) + 
+                   (detail::VecBase<T,4>::y * yy) + 
+                   (detail::VecBase<T,4>::z * zz) + 
+                   (detail::VecBase<T,4>::w * ww);
+        }
+        
+    }; //end Vec4 definition
+    
+    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
+
+} //end namespace geom
+
+#endif /* VECTOR4D_H_ */
-- 
2.43.0


From a99e29edee09d8292fb87127e37c541e0c635a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 088/153] fix: Reseeding a generator kept unused random bits of
 the previous seed

---
 geomc/random/LCRand.cpp | 1 +
 geomc/random/MTRand.cpp | 1 +
 geomc/random/Xorshiro.h | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index b48b96c..f5966cb 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -24,6 +24,7 @@ uint32_t LCRand::rand32(){
 
 void LCRand::rseed(uint64_t seed){
     state = seed;
+    _bitsleft = 0; // discard bits drawn from the previous state
 }
 
 } /* namespace geom */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a889d89..e3bee21 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -71,4 +71,5 @@ void MTRand::rseed(uint64_t seed){
         mt_buffer[i] = seeder.rand32();
     }
     mt_index = 0;
+    _bitsleft = 0; // discard bits drawn from the previous state
 }
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index aaaa804..9067373 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -34,6 +34,7 @@ public:
     }
     
     void rseed(uint64_t seed) {
+        _bitsleft = 0; // discard bits drawn from the previous state
         uint64_t x = seed;
         s[0] = splitmix64(&x);
         s[1] = splitmix64(&x);
@@ -43,6 +44,7 @@ public:
     
     template <typename F>
     void seed(F&& entropy) {
+        _bitsleft = 0;
         // wangjangle the entropy a bit; this ensures (e.g.) that there are no zeros
         uint64_t x = entropy();
         s[0] = splitmix64(&x);
@@ -55,6 +57,7 @@ public:
     }
     
     void seed(const uint64_t entropy[4]) {
+        _bitsleft = 0;
         s[0] = entropy[0];
         s[1] = entropy[1];
         s[2] = entropy[2];
-- 
2.43.0


From 9c4082ea3cf3401be6df85fae5fb8341baa6ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 089/153] fix: Constructing generators on different threads was
 a data race

---
 geomc/random/LCRand.cpp | 2 +-
 geomc/random/LCRand.h   | 3 ++-
 geomc/random/MTRand.cpp | 2 +-
 geomc/random/MTRand.h   | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index f5966cb..43c0490 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -10,7 +10,7 @@
 
 namespace geom {
 
-int LCRand::uniq = 0;
+std::atomic<int> LCRand::uniq(0);
 
 LCRand::LCRand():state(std::time(0) ^ (std::clock() + uniq++)) {}
 
diff --git a/geomc/random/LCRand.h b/geomc/random/LCRand.h
index fe03b84..71ffa06 100644
--- a/geomc/random/LCRand.h
+++ b/geomc/random/LCRand.h
@@ -10,6 +10,7 @@
 #ifndef LCRAND_H_
 #define LCRAND_H_
 
+#include <atomic>
 #include <geomc/random/Random.h>
 
 namespace geom {
@@ -53,7 +54,7 @@ public:
     
 private:
     uint64_t state;
-    static int uniq; //used to prevent successive unseeded constructions from
+    static std::atomic<int> uniq; //used to prevent successive unseeded constructions from
                      //mapping to the same state due to clock collision.
 };
 
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index e3bee21..1dc73f5 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -18,7 +18,7 @@
 
 using namespace geom;
 
-int MTRand::uniq = 0;
+std::atomic<int> MTRand::uniq(0);
 
 #define MT_IA           397
 #define MT_IB           (MT_LEN - MT_IA)
diff --git a/geomc/random/MTRand.h b/geomc/random/MTRand.h
index 8498238..bfdd443 100644
--- a/geomc/random/MTRand.h
+++ b/geomc/random/MTRand.h
@@ -11,6 +11,7 @@
 //TODO: Supply a way to fill the entire buffer with supplied entropy;
 //      right now there are only 2^64 possible sequences. 
 
+#include <atomic>
 #include <geomc/random/Random.h>
 
 #ifndef MERSENNERAND_H_
@@ -49,7 +50,7 @@ namespace geom {
         int mt_index;
         uint32_t mt_buffer[MT_LEN];
         
-        static int uniq;
+        static std::atomic<int> uniq;
     };
 
 }
-- 
2.43.0


From aef32e6cdb2576d061f79a6d3a6fde359368e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 090/153] fix: XoshiroRand::seed did not accept a non-const
 array

---
 geomc/random/Xorshiro.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index 9067373..7ed5740 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -43,7 +43,7 @@ public:
     }
     
     template <typename F>
-    void seed(F&& entropy) {
+    auto seed(F&& entropy) -> decltype((void)entropy()) {
         _bitsleft = 0;
         // wangjangle the entropy a bit; this ensures (e.g.) that there are no zeros
         uint64_t x = entropy();
-- 
2.43.0


From 0c590aeb288b2a8dbca7243a4cbc9c683829bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 091/153] fix: Random unsigned integers below a very large
 bound were not uniform

---
 geomc/random/Random.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b5a053e..7192bf9 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -11,10 +11,6 @@
 
 #include <geomc/random/Random.h>
 
-#define INT_SIGNBIT       (1 << std::numeric_limits<int>::digits)
-#define LONG_SIGNBIT      (1L << std::numeric_limits<long>::digits)
-#define LONG_LONG_SIGNBIT (1LL << std::numeric_limits<long long>::digits)
-
 using namespace std;
 using namespace geom;
 
@@ -194,8 +190,7 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & INT_SIGNBIT) & ~(lo+(hi-1)) );
+    } while ( lo > std::numeric_limits<unsigned int>::max() - (hi-1) );
     return val;
 }
 
@@ -217,8 +212,7 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_SIGNBIT) & ~(lo+(hi-1)) );
+    } while ( lo > std::numeric_limits<unsigned long>::max() - (hi-1) );
     return val;
 }
 
@@ -240,8 +234,7 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
         val = bits % hi;
         lo = bits - val;
         //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_LONG_SIGNBIT) & ~(lo+(hi-1)) );
+    } while ( lo > std::numeric_limits<unsigned long long>::max() - (hi-1) );
     return val;
 }
 
-- 
2.43.0


From 70c7e9d7c3efbdf8c6be8bc1748cdf282390af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 092/153] fix: Random integers in an empty range divided by
 zero

---
 geomc/random/Random.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 7192bf9..4e7295c 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -185,6 +185,8 @@ template <> double Random::rand<double>() {
 template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
     unsigned int bits, val, lo;
 
+    if (hi == 0) return 0;
+
     do {
         bits = rand<unsigned int>();
         val = bits % hi;
@@ -207,6 +209,8 @@ template <> int Random::rand<int>(int hi) {
 template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
     unsigned long bits, val, lo;
 
+    if (hi == 0) return 0;
+
     do {
         bits = rand<unsigned long>();
         val = bits % hi;
@@ -229,6 +233,8 @@ template <> long Random::rand<long>(long hi) {
 template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
     unsigned long long bits, val, lo;
 
+    if (hi == 0) return 0;
+
     do {
         bits = rand<unsigned long long>();
         val = bits % hi;
-- 
2.43.0


From 8d354c42f798805875ee6c18804ff0a63d27aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 093/153] fix: Random integers over ranges wider than half of
 the type overflowed

---
 geomc/random/Random.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 4e7295c..e7752a3 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -199,7 +199,7 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
 
 template <> int Random::rand<int>(int hi) {
     if (hi < 0) {
-        return -rand<unsigned int>(-hi);
+        return -rand<unsigned int>(-(unsigned int)hi);
     } else {
         return rand<unsigned int>(hi);
     }
@@ -223,7 +223,7 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
 
 template <> long Random::rand<long>(long hi) {
     if (hi < 0) {
-        return -rand<unsigned long>(-hi);
+        return -rand<unsigned long>(-(unsigned long)hi);
     } else {
         return rand<unsigned long>(hi);
     }
@@ -247,7 +247,7 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
 
 template <> long long Random::rand<long long>(long long hi) {
     if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
+        return -rand<unsigned long long>(-(unsigned long long)hi);
     } else {
         return rand<unsigned long long>(hi);
     }
@@ -267,19 +267,18 @@ template <> double Random::rand<double>(double hi) {
  * Full Range Specializations     *
  **********************************/
 
-// todo: some of these will fail for ranges crossing zero where lo - hi is
-// greater than INT_MAX.
-
 
 template <> int Random::rand<int>(int lo, int hi) {
     int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
+    // the size of the range may not be representable as a signed number
+    return rand<unsigned int>((unsigned int)max(hi,lo) - lo1) + lo1;
 }
 
 
 template <> long long Random::rand<long long>(long long lo, long long hi) {
     long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
+    // the size of the range may not be representable as a signed number
+    return rand<unsigned long long>((unsigned long long)max(hi,lo) - lo1) + lo1;
 }
 
 
-- 
2.43.0


From 11492717e1b6c2d0cb95fdd69a8bad1a0ff53d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 094/153] fix: Random dual numbers could not be generated

---
 geomc/function/Dual.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geomc/function/Dual.h b/geomc/function/Dual.h
index be5c152..00bb1fc 100644
--- a/geomc/function/Dual.h
+++ b/geomc/function/Dual.h
@@ -2,3 +2,10 @@
 
 #include <geomc/function/functiondetail/DualImpl.h>
 #include <geomc/function/functiondetail/DualFunctions.h>
+
+// Random.h looks for this, to be able to produce random duals
+#define GEOMC_DUAL_H
+
+#ifdef GEOMC_RANDOM_H_
+#include <geomc/function/functiondetail/RandomDual.h>
+#endif
-- 
2.43.0


From e9af4e7354293213d1f26a090f201209228acd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 095/153] fix: Random unsigned long integers had only 32 random
 bits

---
 geomc/random/Random.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index e7752a3..72e59f1 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -7,6 +7,7 @@
 
 #include <assert.h>
 #include <algorithm>
+#include <climits>
 #include <limits>
 
 #include <geomc/random/Random.h>
-- 
2.43.0


From 30e90ed9d29aa1c4359e11b4078da9e5225814c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 096/153] fix: Random floating point numbers could lie outside
 of their range by rounding

---
 geomc/random/Random.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 72e59f1..cb789b0 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -284,12 +284,16 @@ template <> long long Random::rand<long long>(long long lo, long long hi) {
 
 
 template <> float Random::rand<float>(float lo, float hi) {
-    return (hi-lo)*rand<float>() + lo;
+    // rounding could step outside of the range
+    float x = (hi-lo)*rand<float>() + lo;
+    return max(min(lo,hi), min(x, max(lo,hi)));
 }
 
 
 template <> double Random::rand<double>(double lo, double hi) {
-    return (hi-lo)*rand<double>() + lo;
+    // rounding could step outside of the range
+    double x = (hi-lo)*rand<double>() + lo;
+    return max(min(lo,hi), min(x, max(lo,hi)));
 }
 
 /// @} //ingroup random
-- 
2.43.0


From fcbc04014851bc225e5084e5bb006e196e81289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 097/153] fix: Sampler::solidball with a radius crowded its
 samples around the center

---
 geomc/random/RandomTools.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index d7c2d60..8838cc4 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -177,8 +177,7 @@ public:
      */
     template <index_t N> 
     inline Vec<T,N> solidball(T radius) {
-        T r = std::pow(this->rng->template rand<T>(), ((T)1)/N);
-        return solidball<N>() * r * radius;
+        return solidball<N>() * radius;
     }
     
     /**
-- 
2.43.0


From 8e7d42e9a76d641e4826658ec8c1af0f4498e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 098/153] fix: Sampler left out the inner part of shells, cones
 and arcs

---
 geomc/random/RandomTools.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 8838cc4..b46c61a 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -191,7 +191,7 @@ public:
      */
     template <index_t N> 
     Vec<T,N> shell(T minradius, T maxradius) {
-        T radius = std::pow(this->rng->template rand<T>(minradius/maxradius, 1), ((T)1)/N);
+        T radius = std::pow(this->rng->template rand<T>(std::pow(minradius/maxradius, N), 1), ((T)1)/N);
         return this->unit<N>() * radius * maxradius;
     }
     
@@ -285,7 +285,8 @@ public:
      * distributed throughout the volume.
      */
     inline Vec<T,3> solidcap(Vec<T,3> dir, T half_angle_radians, T minR, T maxR) {
-        T r = this->rng->template rand<T>(minR / maxR, 1);
+        T k = minR / maxR;
+        T r = this->rng->template rand<T>(k * k * k, 1);
         r = maxR * std::cbrt(r);
         return r * this->cap(dir, half_angle_radians);
     }
@@ -375,7 +376,8 @@ public:
     Vec<T,2> solidarc(T min_radians, T max_radians,
                       T min_radius,  T max_radius) {
         T angle = this->rng->template rand<T>(min_radians, max_radians);
-        T len   = max_radius * std::sqrt(this->rng->template rand<T>(min_radius / max_radius, 1));
+        T k     = min_radius / max_radius;
+        T len   = max_radius * std::sqrt(this->rng->template rand<T>(k * k, 1));
         return Vec<T,2>(len,angle).from_polar();
     }
     
-- 
2.43.0


From 2c3ef3f9961f0ea819377ac6f15bef0e0a9e914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 099/153] fix: Sampler::cap around -z sampled the opposite cap

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index b46c61a..a3ee499 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -271,7 +271,7 @@ public:
     inline Vec<T,3> cap(Vec<T,3> dir, T half_angle_radians) {
         Vec<T,3> v = this->cap(half_angle_radians);
         Vec<T,3> rotAxis = Vec<T,3>(0,0,1).cross(dir);
-        if (rotAxis.is_zero()) return v;
+        if (rotAxis.is_zero()) return dir.z < 0 ? -v : v;
         return v.rotate(rotAxis, std::acos(dir.z/dir.mag()));
     }
     
-- 
2.43.0


From 0ffffa3638a5479f23273ef6422da45926b09101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 100/153] fix: SampleShape did not compile

---
 geomc/random/SampleGeometry.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/geomc/random/SampleGeometry.h b/geomc/random/SampleGeometry.h
index f0cec05..08f0370 100644
--- a/geomc/random/SampleGeometry.h
+++ b/geomc/random/SampleGeometry.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <random>
-#include <geomc/shape/ShapeTypes.h>
+#include <geomc/shape/Rect.h>
+#include <geomc/shape/Simplex.h>
+#include <geomc/shape/Sphere.h>
 
 namespace geom {
     
@@ -29,9 +31,9 @@ struct SampleShape {};
 
 template <typename T, index_t N>
 struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
-    Simplex<T,N> shape;
+    using ShapeDistribution<Simplex<T,N>>::shape;
     
-    SampleShape(const Simplex<T,N>& s):ShapeDistribution(s) {}
+    SampleShape(const Simplex<T,N>& s):ShapeDistribution<Simplex<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
@@ -57,8 +59,8 @@ struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
 
 template <typename T, index_t N>
 struct SampleShape<Rect<T,N>> : public ShapeDistribution<Rect<T,N>> {
-    Rect<T,N> shape;
-    SampleShape(const Rect<T,N>& s):ShapeDistribution(s) {}
+    using ShapeDistribution<Rect<T,N>>::shape;
+    SampleShape(const Rect<T,N>& s):ShapeDistribution<Rect<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
@@ -74,14 +76,18 @@ struct SampleShape<Rect<T,N>> : public ShapeDistribution<Rect<T,N>> {
 
 template <typename T, index_t N>
 struct SampleShape<Sphere<T,N>> : public ShapeDistribution<Sphere<T,N>> {
-    Sphere<T,N> shape;
-    SampleShape(const Sphere<T,N>& s):ShapeDistribution(s) {}
+    using ShapeDistribution<Sphere<T,N>>::shape;
+    SampleShape(const Sphere<T,N>& s):ShapeDistribution<Sphere<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
         std::uniform_real_distribution<T> u(0,1);
-        Vec<T,N> p = rnd<T,N>(rng).unit();
-        p = p * shape.r * std::pow(u(rng), 1/(T)N) + shape.center;
+        std::normal_distribution<T> gauss;
+        Vec<T,N> p;
+        for (index_t i = 0; i < N; ++i) {
+            p[i] = gauss(rng);
+        }
+        p = p.unit() * shape.r * std::pow(u(rng), 1/(T)N) + shape.center;
         return p;
     }
 };
-- 
2.43.0


From bf7069abfe4fcad7c6baddbb03eec2cd35562b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 101/153] fix: SampleShape took samples of a Simplex with fewer
 vertices from all of its storage

---
 geomc/random/SampleGeometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/random/SampleGeometry.h b/geomc/random/SampleGeometry.h
index 08f0370..64723be 100644
--- a/geomc/random/SampleGeometry.h
+++ b/geomc/random/SampleGeometry.h
@@ -42,13 +42,13 @@ struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
         std::exponential_distribution<T> e(1);
         T s[N + 1];
         T sum = 0;
-        for (index_t i = 0; i < N + 1; ++i) {
+        for (index_t i = 0; i < shape.n; ++i) {
             T xi = e(rng);
             s[i] = xi;
             sum += xi;
         }
         Vec<T,N> p;
-        for (index_t i = 0; i < N + 1; ++i) {
+        for (index_t i = 0; i < shape.n; ++i) {
             T xi = s[i] / sum;
             p += xi * shape.pts[i];
         }
-- 
2.43.0


From fefb807999789810093efef35401f87470af2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 102/153] fix: The value of a Raster outside of its bounds was
 not initialized

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index d6fa9cd..8ada158 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -128,7 +128,7 @@ protected:
     grid_t    m_extent;
     index_t   m_size;
     boost::shared_array<O> m_data;
-    sample_t  m_abyss;
+    sample_t  m_abyss = sample_t((O)0);
     Rect<I,M> m_domain;
     
 public:
-- 
2.43.0


From 6f1e08f10bf604b2468657b411ab7f5a2471c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 103/153] fix: Raster sampling coordinates did not meet the
 sample points

---
 geomc/function/Raster.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 8ada158..5747d67 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -431,7 +431,15 @@ public:
 protected:
     
     inline coord_t toGridSpace(const coord_t &pt) const {
-        return (coord_t)m_extent * m_domain.unmap(pt);
+        // the extremes of the domain are the first and the last sample point
+        const coord_t steps = (coord_t)m_extent - coord_t((I)1);
+        const coord_t width = m_domain.hi - m_domain.lo;
+        coord_t s = pt - m_domain.lo;
+        for (index_t i = 0; i < M; ++i) {
+            I w = PointType<I,M>::iterator(width)[i];
+            if (w != 0) PointType<I,M>::iterator(s)[i] *= PointType<I,M>::iterator(steps)[i] / w;
+        }
+        return s;
     }
     
     template <EdgeBehavior Edge>
-- 
2.43.0


From 9118752590ef001ea73db8f178f83a7dc15aa8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 104/153] fix: Raster samples below the first grid point were
 rounded towards zero

---
 geomc/function/functiondetail/RasterDetail.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 041874b..64260ab 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -86,7 +86,7 @@ public:
     typedef typename Raster<I,O,N,Channels>::sample_t sample_t;
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
-        grid_t gridPt = grid_t(pt + coord_t(0.5));
+        grid_t gridPt = grid_t(std::floor(pt + coord_t((I)0.5)));
         return r->template sample_discrete<Edge>(gridPt);
     }
 };
@@ -100,7 +100,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<N];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t)std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
@@ -119,7 +119,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<(2*N)];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t)std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-- 
2.43.0


From c85ef1a88aec130d1b0b42b2fd7aad86d5c34188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 105/153] fix: Interpolating one-dimensional Rasters did not
 compile

---
 geomc/function/functiondetail/RasterDetail.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 64260ab..288f74a 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -104,7 +104,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt, gridPt + grid_t(1)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt, gridPt + grid_t((index_t)1)));
         
         return interp_linear(PointType<I,N>::iterator(s), buf, N);
     }
@@ -123,7 +123,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt - grid_t((index_t)1), gridPt + grid_t((index_t)2)));
         
         return interp_cubic(PointType<I,N>::iterator(s), buf, N);
     }
-- 
2.43.0


From 56a4bdf0fd76bd600d35336a1844fe1d45be88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 106/153] fix: Sampling a Raster with run-time parameters did
 not compile

---
 geomc/function/Raster.h | 54 ++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 5747d67..86d082f 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -284,35 +284,15 @@ public:
      * @return Sampled data.
      */
     sample_t sample(const coord_t &pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
-        grid_t gridPt;
-        pt = toGridSpace(pt);
-        
-        switch (interp) {
-        case INTERP_NEAREST:
-            gridPt = grid_t(pt + coord_t(0.5));
-            return sample_discrete(gridPt, edge);
-        case INTERP_LINEAR:
-        {
-            sample_t buf_l[1<<M];
-            gridPt = (grid_t)pt;
-            coord_t s = pt - ((coord_t)gridPt);
-            
-            // copy surrounding 2^M sample pts into a contiguous buffer
-            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
-            
-            return interp_linear(s.begin(), buf_l, M);
-        }
-        case INTERP_CUBIC:
-        {
-            sample_t buf_c[1<<(2*M)];
-            gridPt = (grid_t)pt;
-            coord_t s = pt - ((coord_t)gridPt);
-            
-            // copy surrounding 4^M sample pts into a contiguous buffer
-            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
-            
-            return interp_cubic(s.begin(), buf_c, M);
-        }
+        switch (edge) {
+        case EDGE_CLAMP:
+            return sample_edge<EDGE_CLAMP>(pt, interp);
+        case EDGE_PERIODIC:
+            return sample_edge<EDGE_PERIODIC>(pt, interp);
+        case EDGE_MIRROR:
+            return sample_edge<EDGE_MIRROR>(pt, interp);
+        case EDGE_CONSTANT:
+            return sample_edge<EDGE_CONSTANT>(pt, interp);
         default:
             return m_abyss;
         }
@@ -371,7 +351,7 @@ public:
             return m_abyss;
         }
         
-        return sample_t(m_data.get() + offs);
+        return PointType<O,N>::from_ptr(m_data.get() + offs);
     }
     
     /**
@@ -430,6 +410,20 @@ public:
     
 protected:
     
+    template <EdgeBehavior Edge>
+    sample_t sample_edge(const coord_t &pt, Interpolation interp) const {
+        switch (interp) {
+        case INTERP_NEAREST:
+            return this->template sample<Edge, INTERP_NEAREST>(pt);
+        case INTERP_LINEAR:
+            return this->template sample<Edge, INTERP_LINEAR>(pt);
+        case INTERP_CUBIC:
+            return this->template sample<Edge, INTERP_CUBIC>(pt);
+        default:
+            return m_abyss;
+        }
+    }
+    
     inline coord_t toGridSpace(const coord_t &pt) const {
         // the extremes of the domain are the first and the last sample point
         const coord_t steps = (coord_t)m_extent - coord_t((I)1);
-- 
2.43.0


From f5f0f33f190050e6b199f42bf2f1e925560afda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 107/153] fix: Raster::samplecount counted the components of
 samples

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 86d082f..a78c809 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -405,7 +405,7 @@ public:
      * Number of grid sample points in this raster.
      */
     inline index_t samplecount() const {
-        return m_size;
+        return m_size / N;
     }
     
 protected:
-- 
2.43.0


From b6e478128ece2ebd898082192e7837e0080855a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 108/153] fix: Mirrored Raster sampling divided by zero across
 axes with one sample

---
 geomc/function/functiondetail/RasterDetail.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 288f74a..4f8750d 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -44,8 +44,9 @@ public:
     static inline index_t coord(index_t c, index_t max) {
         c = std::abs(c);
         max -= 1;
-        int cyc = c/max;
-        int i   = c%max;
+        if (max == 0) return 0;
+        index_t cyc = c/max;
+        index_t i   = c%max;
         return ((cyc & 1) == 0)?(i):(max-i);
     }
 };
-- 
2.43.0


From c6bc1ff582473f7624098fdfb38d3c75dee8c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 109/153] fix: Path::eval converted parameters to an index
 before knowing that they fit one, and was not const

---
 geomc/function/Path.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/Path.h b/geomc/function/Path.h
index 447129b..6427764 100644
--- a/geomc/function/Path.h
+++ b/geomc/function/Path.h
@@ -59,8 +59,7 @@ class Path {
 public:
     Path(){}
 
-    Vec<T,N> eval(T t){
-        size_t n = t;
+    Vec<T,N> eval(T t) const {
         size_t sz = knots.size();
         
         //degenerate cases
@@ -68,14 +67,15 @@ public:
             return Vec<T,N>();
         } else if (t < 0){ 
             return knots[0].at_multiple(t);
-        } else if (n >= sz - 1){
-            T t_0 = t - sz + 1;
+        } else if (!(t < sz - 1)){
+            T t_0 = t - (sz - 1);
             return knots[sz - 1].at_multiple(t_0);
         }
         
+        size_t n = t; // (in range; t is nonnegative and smaller than the knot count)
         T t_0 = t - n;
-        Ray<T,N> &r0 = knots[n];
-        Ray<T,N> &r1 = knots[n+1];
+        const Ray<T,N> &r0 = knots[n];
+        const Ray<T,N> &r1 = knots[n+1];
         Vec<T,N> v0 = r0.at_multiple(t_0);
         Vec<T,N> v1 = r1.at_multiple(t_0 - 1);
         return v0.mix(v1, ease(t_0));
-- 
2.43.0


From 5c2c116c1500cb1f48dfc56db4f7963a0907d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 110/153] fix: PerlinNoise::gradient started from an
 uninitialized value in one dimension

---
 geomc/function/PerlinNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 684470c..eb6f834 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -164,7 +164,7 @@ public:
                 f[pair] = mix(t, a, b);
                 
                 // apply the multivariate chain rule:
-                point_t w;
+                point_t w((T)0);
                 // dt/dx is only nonzero along the current axis:
                 T* w_i  = pointtype::iterator(w) + axis;
                 //        dmix_dt(t, ...) * dt/dx
-- 
2.43.0


From b49539cd58467a1e5d7779ddaf5168888b92c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 111/153] fix: PerlinNoise overflowed a signed integer choosing
 its gradients

---
 geomc/function/PerlinNoise.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index eb6f834..4acf031 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -183,14 +183,15 @@ public:
 protected:
     
     inline const point_t& get_grid_gradient(const grid_t& pt) const {
-        index_t idx = 0;
+        // unsigned, because the scramble is meant to wrap around:
+        uint64_t idx = 0;
         for (index_t i = 0; i < N; ++i) {
             // do an iterated linear congruential scramble, using Knuth's constants:
             // xxx: todo: make portable
-            index_t k = gridtype::iterator(pt)[i];
-            idx = 6364136223846793005LL * (k + idx) + 1442695040888963407LL;
+            uint64_t k = gridtype::iterator(pt)[i];
+            idx = 6364136223846793005ULL * (k + idx) + 1442695040888963407ULL;
         }
-        idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
+        idx %= PERLIN_NUM_GRADIENTS;
         
         // xxx: todo: confirm the above is okay and delete this:
         // idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
-- 
2.43.0


From 9485e1c9a86ccd7468c40851153e1c656e8bfb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 112/153] fix: The sum of two SphericalHarmonics was not
 returned, nor its size or terms computed

---
 geomc/function/SphericalHarmonics.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 8fc86c8..32eee71 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -544,12 +544,11 @@ class SphericalHarmonics {
     /**
      * Construct a SphericalHarmonics function which is the sum of this and another.
      */
-    SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) {
-        index_t n = std::max(sh.size(), size());
-        SphericalHarmonics<T,Bands> out(n);
-        for (index_t i; i < n; i++) {
-            out.coeffs[i] = coeffs[i] + sh.coeffs[i];
-        }
+    SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) const {
+        const SphericalHarmonics<T,Bands> &smaller = size() < sh.size() ? *this : sh;
+        SphericalHarmonics<T,Bands> out            = size() < sh.size() ? sh : *this;
+        out += smaller;
+        return out;
     }
     
     /**
-- 
2.43.0


From ac90b36df3bad62bdae07d0d8394447b972ebe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 113/153] fix: A normalized SphericalHarmonics did not have an
 integral of 1

---
 geomc/function/SphericalHarmonics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 32eee71..381d0fa 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -285,8 +285,10 @@ class SphericalHarmonics {
      * If the integral is currently 0, no change will be made.
      */
     void normalize() {
-        T nh = coeffs[0];
+        T k  = std::sqrt(4 * boost::math::constants::pi<T>());
+        T nh = coeffs[0] * k;
         if (nh == 0) return;
+        coeffs[0] = 1 / k;
         for (index_t i = 1; i < size(); i++) {
             coeffs[i] /= nh;
         }
-- 
2.43.0


From 3cedf166a5041c67eec1e185f9e7f2125c859877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 114/153] fix: Adding a constant to a SphericalHarmonics added
 a different constant

---
 geomc/function/SphericalHarmonics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 381d0fa..6081f62 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -528,7 +528,8 @@ class SphericalHarmonics {
      * @param k Bias.
      */
     SphericalHarmonics<T,Bands>& operator+=(T k) {
-        coeffs[0] += k;
+        // the first basis function is constant, but it is not 1:
+        coeffs[0] += k * std::sqrt(4 * boost::math::constants::pi<T>());
         return *this;
     }
     
-- 
2.43.0


From fb4c2ceced73ccbab9caec2a3cb279cf9f9bd563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 115/153] fix: Converting a ZonalHarmonics to a
 SphericalHarmonics of more bands read beyond its coefficients

---
 geomc/function/SphericalHarmonics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 6081f62..5cdff59 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -190,7 +190,7 @@ class SphericalHarmonics {
         const index_t b = Bands > 0 ? std::min(zh.bands(), Bands) : zh.bands();
         Dimension<Bands>::set(n_bands, b);
         clear();
-        for (index_t l = 0; l < bands(); l++) {
+        for (index_t l = 0; l < b; l++) {
             T k = std::sqrt((4*pi) / (2 * l + 1));
             T p = zh.coeff(l);
             T v = p * k;
@@ -213,8 +213,9 @@ class SphericalHarmonics {
         clear();
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
+            const T c = l < b ? zh.coeff(l) : 0;
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
+                coeff(l,m) *= c * std::sqrt((4*pi) / (2 * l + 1));
             }
         }
     }
-- 
2.43.0


From 007a64c475adbc763e64d67e98a5a7ccd5de399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 116/153] fix: Converting a SphericalHarmonics to a
 ZonalHarmonics scaled every band wrongly, and the first by NaN

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 5cdff59..cb90ef3 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -618,7 +618,7 @@ class ZonalHarmonics {
         const T pi = boost::math::constants::pi<T>();
         Dimension<Bands>::set(n_bands,sh.bands());
         for (index_t l = 0; l < bands(); l++) {
-            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l - 1) / (4 * pi));
+            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l + 1) / (4 * pi));
         }
     }
     
-- 
2.43.0


From 3a0ae62c3882d56d6dea043df1b0468c34e97d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 117/153] fix: ZonalHarmonics::dot read beyond the coefficients
 of the shorter function

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index cb90ef3..805e0fd 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -664,7 +664,7 @@ class ZonalHarmonics {
     T dot(const ZonalHarmonics<T,B> &zh) const {
         T sum = 0;
         const index_t n = std::min(bands(), zh.bands());
-        for (index_t i = 0; i < bands(); i++) {
+        for (index_t i = 0; i < n; i++) {
             sum += coeff(i) * zh.coeff(i);
         }
         return sum;
-- 
2.43.0


From 14714be1d2f2f26a88b94eb3c66c8950462beedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 118/153] fix: ZonalHarmonics::project evaluated the wrong
 polynomials, and replaced the function instead of adding to it

---
 geomc/function/SphericalHarmonics.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 805e0fd..7ab3ccf 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -760,16 +760,15 @@ class ZonalHarmonics {
      * @param val Value of the sample.
      */
     void project(T cos_alt, T val) {
-        const T x = cos_alt;
-        coeffs[0] = val;
-        if (bands() > 1) coeffs[1] = x * val;
-        T p_0 = 1;
-        T p_1 = x;
-        for (index_t i = 1; i < bands(); i++) {
-            T p_i = (2 * i + 1) * x * p_1 - i * p_0 / ((T)i + 1);
+        const T x   = cos_alt;
+        const T k   = val / (4 * boost::math::constants::pi<T>());
+        T p_0 = 1; // P(i,     x)
+        T p_1 = x; // P(i + 1, x)
+        for (index_t i = 0; i < bands(); i++) {
+            coeffs[i] += k * (2 * i + 1) * p_0;
+            T p_i = ((2 * i + 3) * x * p_1 - (i + 1) * p_0) / ((T)i + 2);
             p_0 = p_1;
             p_1 = p_i;
-            coeffs[i] = val * p_i;
         }
     }
     
-- 
2.43.0


From ad4361399b107eb2b6bdbd48f114266caa10920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 119/153] fix: Convolution did not account for the scale of
 ZonalHarmonics coefficients, and read beyond a shorter kernel

---
 geomc/function/SphericalHarmonics.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 7ab3ccf..63cf96e 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -302,10 +302,12 @@ class SphericalHarmonics {
      */
     template <index_t ZH_Bands>
     void convolve(const ZonalHarmonics<T,ZH_Bands> &zh) {
+        const T pi = boost::math::constants::pi<T>();
         for (index_t l = 0; l < bands(); l++) {
+            const T k = (4 * pi) / (2 * l + 1);
             for (index_t m = -l; m <= l; m++) {
                 if (l < zh.bands())
-                    coeff(l,m) *= zh.coeff(l);
+                    coeff(l,m) *= k * zh.coeff(l);
                 else
                     coeff(l,m)  = 0;
             }
@@ -778,8 +780,8 @@ class ZonalHarmonics {
      */
     void convolve(const ZonalHarmonics<T,Bands> &kernel) {
         for (index_t l = 0; l < bands(); l++) {
-            T k = std::sqrt((boost::math::constants::pi<T>() * 4) / (2 * l + 1));
-            coeffs[l] *= k * kernel.coeffs[l];
+            T k = (boost::math::constants::pi<T>() * 4) / (2 * l + 1);
+            coeffs[l] *= l < kernel.bands() ? k * kernel.coeffs[l] : 0;
         }
     }
     
@@ -795,7 +797,7 @@ class ZonalHarmonics {
         // xxx debug
         //std::cout << "diffusing to " << t << "\n";
         for (index_t l = 0; l < bands(); l++) {
-            T k = std::sqrt((boost::math::constants::pi<T>() * 4) / (2 * l + 1));
+            T k = (boost::math::constants::pi<T>() * 4) / (2 * l + 1);
             T m = k * coeffs[l];
             coeffs[l] = detail::cpow(m, t) / k;
             //std::cout << m << " --> " << coeffs[l] * k << "\n";
-- 
2.43.0


From 882227e3c5603b7aef6517c9b5174ac859009ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 120/153] fix: ZonalHarmonics::normalize scaled the second band
 to a constant, instead of the integral to 1

---
 geomc/function/SphericalHarmonics.h | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 63cf96e..5ddd6b3 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -808,25 +808,11 @@ class ZonalHarmonics {
     /**
      * Ensure the integral over the entire sphere is 1. 
      * If the integral is currently 0, no change will be made.
-     */ /*
-    void normalize() {
-        T k  = std::sqrt(4 * boost::math::constants::pi<T>());
-        T nh = coeffs[0] * k;
-        if (nh == 0) return;
-        coeffs[0] = 1 / k;
-        for (index_t i = 1; i < bands(); i++) {
-            coeffs[i] /= nh;
-        }
-    }*/
-    
-    // xxx debug
+     */
     void normalize() {
-        T k  = std::sqrt(4 * boost::math::constants::pi<T>() / 3);
-        T nh = coeffs[1] * k;
+        T nh = coeffs[0] * 4 * boost::math::constants::pi<T>();
         if (nh == 0) return;
-        coeffs[1] = 1 / k;
         for (index_t i = 0; i < bands(); i++) {
-            if ( i == 1) continue;
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From 023c0312c41cd0aef2320105e7ba5da7c7385ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 121/153] fix: A first-order Lambertian approximation had two
 bands

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 5ddd6b3..a5d0f4a 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -690,7 +690,7 @@ class ZonalHarmonics {
         clear();
         T fac = 1;
         coeffs[0] = 0.25;
-        if (bands() > 1) {
+        if (ct > 1) {
             coeffs[1] = 0.5;
             for (index_t n = 2; n < ct; n += 2) { // odd bands are 0.
                 fac *= n * (n - 1);
-- 
2.43.0


From ac85f6be44a5fff06434ffb333f52c717addb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 122/153] fix: A ZonalHarmonics re-oriented as a
 SphericalHarmonics was a different function

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index a5d0f4a..49c9293 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -215,7 +215,7 @@ class SphericalHarmonics {
         for (index_t l = 0; l < bands(); l++) {
             const T c = l < b ? zh.coeff(l) : 0;
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= c * std::sqrt((4*pi) / (2 * l + 1));
+                coeff(l,m) *= c * ((4*pi) / (2 * l + 1));
             }
         }
     }
-- 
2.43.0


From cd08c5685c29176154cacb62af46e8074005b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 123/153] fix: Querying a BinLatticePartition with a Rect did
 not compile

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 408cebe..8924b3f 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -274,7 +274,7 @@ public:
     }
 
     region_iterator query(Rect<T,N> region){
-        return region_iterator(*this, binRegion(region));
+        return region_iterator(this, binRegion(region));
     }
 
     region_iterator query(point_t pt, T radius){
-- 
2.43.0


From 4fd9117fb28ac06e44de3729443c9f0ed64d14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 124/153] fix: A BinLatticePartition of one dimension did not
 compile

---
 geomc/shape/BinLatticePartition.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 8924b3f..cecb4c2 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -75,7 +75,7 @@ class BinLatticePartition {
 public:
     typedef typename Rect<index_t,N>::point_t  bin_t; //edit: wait, what?
     typedef typename Rect<T,N>::point_t        point_t;
-    typedef std::pair< Vec<T,N>, O >           item_t;
+    typedef std::pair< point_t, O >            item_t;
 
 protected:
 #if __cplusplus <= 199711L
@@ -200,12 +200,13 @@ public:
                 // increment cell within block
                 bool cellWithinRegion = false;
                 for (index_t inc_coord = 0; inc_coord < N; inc_coord++){
-                    if (thisCellCoords[inc_coord] + 1 >= cellblock.hi[inc_coord]){
+                    index_t& coord = PointType<index_t,N>::iterator(thisCellCoords)[inc_coord];
+                    if (coord + 1 >= PointType<index_t,N>::iterator(cellblock.hi)[inc_coord]){
                         // don't exceeded maximum along this axis; can't increment.
                         // rollover this axis and attempt to increment the next.
-                        thisCellCoords[inc_coord] = cellblock.lo[inc_coord];
+                        coord = PointType<index_t,N>::iterator(cellblock.lo)[inc_coord];
                     } else {
-                        thisCellCoords[inc_coord]++;
+                        coord++;
                         cellWithinRegion = true; // successfully incremented cell w/o going off edge
                         break;
                     }
@@ -298,7 +299,7 @@ public:
     }
 
     bin_t binOf(point_t location){
-        return (bin_t)((location / _cellsize).floor());
+        return (bin_t)std::floor(location / _cellsize);
     }
 
     protected:
@@ -306,8 +307,8 @@ public:
     inline Rect<index_t,N> binRegion(Rect<T,N> r){
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
-                (bin_t)((r.lo / _cellsize).floor()),
-                (bin_t)((r.hi / _cellsize).ceil())
+                (bin_t)std::floor(r.lo / _cellsize),
+                (bin_t)std::ceil(r.hi / _cellsize)
         );
     }
 
-- 
2.43.0


From 528e32926b0c612894fdff8fddac36ac60ee203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 125/153] fix: A BinLatticePartition query missed items on the
 upper boundary of the region at a bin boundary

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index cecb4c2..cd16932 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -308,7 +308,7 @@ public:
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
                 (bin_t)std::floor(r.lo / _cellsize),
-                (bin_t)std::ceil(r.hi / _cellsize)
+                (bin_t)std::floor(r.hi / _cellsize) + bin_t(1)
         );
     }
 
-- 
2.43.0


From 684cc6959ea09c70366836c121e867f5d9c97e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 126/153] fix: A Tree made from a range of items counted one
 item only

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4928a47..695e98a 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -204,7 +204,7 @@ public:
         // assign items to root
         node->items_first = _items.begin();
         node->items_last  = _items.end(); --(node->items_last);
-        node->n_items     = _nodes.size();
+        node->n_items     = _items.size();
     }
     
     
-- 
2.43.0


From 5cc52687868222174bf70be19697eff287ca9916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 127/153] fix: Inserting a Tree node dereferenced the end of
 the node list

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 695e98a..dc5c793 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1010,7 +1010,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and n != this->end()._root) return this->end();
+        if (n != this->end()._root and n->parent != p) return this->end();
         
         // set the insert point for empty nodes
         if (parent_childless) {
@@ -1091,7 +1091,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and this->end()._root != n) return this->end();
+        if (this->end()._root != n and n->parent != p) return this->end();
         if (i_begin == i_end)                          return this->end();
         
         // set the insert point for empty nodes
-- 
2.43.0


From 4c61801d7f483e5ac347b82bf4498f16032a809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 128/153] fix: The successor of a Tree node's subtree was
 searched for in that subtree

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index dc5c793..71f7bab 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -862,7 +862,7 @@ protected:
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us
-            for (NodeRef c = child; c != off_end_child; ++c) {
+            for (NodeRef c = std::next(child); c != off_end_child; ++c) {
                 if (c->n_children > 0) {
                     successor = c->child_first;
                     break;
@@ -889,7 +889,7 @@ protected:
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
-                for (NodeRef c = node; c != end_c; ++c) {
+                for (NodeRef c = std::next(node); c != end_c; ++c) {
                     if (c->n_items > 0) {
                         return c->items_first;
                     }
-- 
2.43.0


From fd189aac1a418d265fd3d6a1b3d89af74e92a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 129/153] fix: Inserting a range of Tree nodes did not compile

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 71f7bab..1fb7ffc 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1103,7 +1103,7 @@ public:
         // todo: this->_storage->_nodes.reserve(n_items);
         NodeRef prev_end_node  = this->end()._root;
         NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, base_t::Node(this->_storage, p, *(i_begin++)));
+            n, typename base_t::Node(this->_storage, p, *(i_begin++)));
         NodeRef last_new_node  = first_new_node;
         
         // transfer ownership of the parent's items to the first child.
@@ -1119,7 +1119,7 @@ public:
         index_t ct = 1;
         for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
             last_new_node = this->_storage->_nodes.insert(
-                n, base_t::Node(this->_storage, p, *i));
+                n, typename base_t::Node(this->_storage, p, *i));
         }
         
         // adjust child endpoints if necessary
-- 
2.43.0


From ba5e025302aa4bf41ac86efbe6ef0be0edabf612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 130/153] fix: Inserting a range of Tree items did not compile

---
 geomc/Tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 1fb7ffc..4bdbf50 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1252,7 +1252,7 @@ public:
     template <typename LeafItemIterator>
     item_iterator insert_items(
             const item_iterator& insert_before,
-            const LeafItemIterator  begin_item,
+                  LeafItemIterator  begin_item,
             const LeafItemIterator& end_item,
             index_t* new_item_count=nullptr) const {
         // todo: it would be great if we could protect against the user
@@ -1270,8 +1270,8 @@ public:
         // retrieve parent and insert point
         NodeRef n = this->_root;
         ItemRef insert_pt = insert_before;
-        if (n.n_items == 0) {
-            insert_pt = item_successor(n);
+        if (n->n_items == 0) {
+            insert_pt = this->item_successor(n);
         }
         
         // insert the first item
-- 
2.43.0


From 31efa0a528924e9b6d6d0bfda310d6111731f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 131/153] fix: The boundary items of a Tree node's ancestors
 were wrong if edge siblings were empty or the node was not at their edge

---
 geomc/Tree.h | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4bdbf50..e41c783 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -359,36 +359,27 @@ protected:
             ItemRef new_last,
             index_t delta_items) {
         
-        NodeRef prev_child = _nodes.end();
-        NodeRef n = leaf;
-        
-        ItemRef old_first = n->items_first;
-        ItemRef old_last  = n->items_last;
+        leaf->n_items    += delta_items;
+        leaf->items_first = (leaf->n_items > 0) ? new_first : _items.end();
+        leaf->items_last  = (leaf->n_items > 0) ? new_last  : _items.end();
         
         // update ancestors' item count and boundary items
-        while (n != _nodes.end()) {
+        for (NodeRef n = leaf->parent; n != _nodes.end(); n = n->parent) {
             n->n_items += delta_items;
-            
-            if (n->n_items == 0) {
-                n->items_first = n->items_last = _items.end();
-            } else {
-                // If we ascended from an edge node, that node certainly
-                // controls (or used to control) our edge item. 
-                // But it might have also controlled our edge item if the 
-                // edge sibling doesn't have any items. In this case,
-                // its previous edge item will also be ours.
-                if (n->child_first == prev_child or 
-                        n->items_first == old_first) {
-                    n->items_first = new_first;
-                }
-                if (n->child_last == prev_child or
-                        n->items_last == old_last) {
-                    n->items_last = new_last;
-                }
-            }
-            
-            prev_child = n;
-            n = n->parent;
+            update_boundary_items(n);
+        }
+    }
+    
+    
+    // find the first and last items of an internal node, which are those of 
+    // its first and last children that have any.
+    void update_boundary_items(NodeRef n) {
+        n->items_first = n->items_last = _items.end();
+        NodeRef c = n->child_first;
+        for (index_t i = 0; i < n->n_children; ++i, ++c) {
+            if (c->n_items == 0) continue;
+            if (n->items_first == _items.end()) n->items_first = c->items_first;
+            n->items_last = c->items_last;
         }
     }
     
-- 
2.43.0


From adfa63953ad0510daacef86a6ff3ae2ad9ec5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 132/153] fix: Erasing a Tree item did not compile, and cut off
 the items after it

---
 geomc/Tree.h | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index e41c783..c7df77f 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1479,8 +1479,8 @@ public:
             // this is a linear check; if we *knew* we were the parent, the
             // entire operation would be log(n). laaaaame.
             bool found = false;
-            for (item_iterator i = n->items_begin(); 
-                    i != n->items_end(); 
+            for (item_iterator i = this->items_begin(); 
+                    i != this->items_end(); 
                     ++i) {
                 if (i == item) {
                     found = true;
@@ -1489,21 +1489,13 @@ public:
             }
             
             if (found) {
+                bool is_first = item == n->items_first;
+                bool is_last  = item == n->items_last;
                 ItemRef next_item = this->_storage->_items.erase(item);
-                ItemRef prev_item = next_item; --prev_item;
                 
                 // figure out the new begin / end items
-                ItemRef new_begin, new_end;
-                if (item == n->items_first) {
-                    new_begin = next_item;
-                } else {
-                    new_begin = n->items_first;
-                }
-                if (item == n->items_last) {
-                    new_end = prev_item;
-                } else {
-                    new_end = prev_item;
-                }
+                ItemRef new_begin = is_first ? next_item            : n->items_first;
+                ItemRef new_end   = is_last  ? std::prev(next_item) : n->items_last;
                 
                 this->_storage->update_boundary_items(
                     n, 
@@ -1512,7 +1504,7 @@ public:
                     -1);
                 
                 ok  = true;
-                ret = next_item;
+                ret = is_last ? this->items_end() : next_item;
             }
         }
         
-- 
2.43.0


From b15373116aa171762924fc103edb99cc2dfb67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 133/153] fix: Clearing a Tree node used each item after
 deleting it

---
 geomc/Tree.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c7df77f..c1a3a74 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1525,16 +1525,11 @@ public:
             ItemRef endpt = n->items_last; ++endpt;
             
             // delete the items
-            ItemRef next_item;
-            index_t n_deleted = 0;
-            for (next_item = n->items_first; next_item != endpt; ++next_item) {
-                this->_storage->_items.erase(next_item);
-                ++n_deleted;
-            }
-            ItemRef prev_item = next_item; --prev_item;
+            index_t n_deleted = n->n_items;
+            this->_storage->_items.erase(n->items_first, endpt);
             
             // update item boundaries / counts
-            this->_storage->update_boundary_items(n, next_item, prev_item, -n_deleted);
+            this->_storage->update_boundary_items(n, endpt, endpt, -n_deleted);
         }
     }
     
-- 
2.43.0


From 00701f97a05cc7cef7e23edd2c23e06d37564fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 134/153] fix: Erasing a Tree node used it after deletion, and
 an only child's successor was not end()

---
 geomc/Tree.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c1a3a74..0443c85 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1555,8 +1555,9 @@ public:
         
         child.clear();
         
-        NodeRef x = child._root;
-        NodeRef next_node = this->_storage->_nodes.erase(x);
+        bool is_first = child._root == this->_root->child_first;
+        bool is_last  = child._root == this->_root->child_last;
+        NodeRef next_node = this->_storage->_nodes.erase(child._root);
         NodeRef prev_node = next_node; --prev_node;
         
         // remove deleted child from its parent (us)
@@ -1566,14 +1567,14 @@ public:
             this->_root->child_first = 
                 this->_root->child_last = 
                     this->_storage->_nodes.end();
-        } else if (this->_root->child_first == x) {
+        } else if (is_first) {
             this->_root->child_first = next_node;
-        } else if (this->_root->child_last == x) {
+        } else if (is_last) {
             this->_root->child_last = prev_node;
         }
         
         if (success) *success = true;
-        return self_t(next_node, this->_storage);
+        return is_last ? this->end() : self_t(next_node, this->_storage);
     }
     
     
-- 
2.43.0


From 40de922eb46e51d6065546b124587875a8c2f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 135/153] fix: A copy of a Tree referred to the nodes of the
 original

---
 geomc/Tree.h | 81 +++++++++++++++++++++-------------------------------
 1 file changed, 33 insertions(+), 48 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 0443c85..b848d72 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -342,10 +342,9 @@ protected:
     
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
+        n->parent      = _nodes.end();
         n->child_first = std::next(n);
-        n->child_last  = _nodes.end(); --(n->child_last);
         n->items_first = _items.begin();
-        n->items_last  = _items.end(); --(n->items_last);
         root().recalculate_references();
     }
     
@@ -1619,52 +1618,38 @@ protected:
         NodeRef begin_child = this->_root->child_first;
         // next unassigned leaf item:
         ItemRef begin_items = this->_root->items_first;
-        // last / most recent assigned leaf item in the list: 
-        ItemRef last_item   = begin_items; --last_item;
-        NodeRef end_child   = this->node_successor(this->_root);
-        
-        // in essence we "build" the tree by simply taking ownership of 
-        // the nodes/items that already exist. we walk over the nodes in 
-        // tree order, which means that child nodes are taken in order too.
-        for (NodeRef node = this->_root; node != end_child; ) {
-            node->child_first = node->child_last = 
-                (node->n_children > 0) ? begin_child : this->_storage->_nodes.end();
-            node->items_first = node->items_last = 
-                (node->n_items    > 0) ? begin_items : this->_storage->_items.end();
-            
-            if (node->n_children > 0) {
-                node->child_first->parent = node;
-                
-                // acquire direct children
-                for (index_t c = 0; c < node->n_children - 1; ++c) {
-                    ++(node->child_last);
-                    node->child_last->parent = node;
-                }
-                
-                // move the node "free space"
-                begin_child = node->child_last; ++begin_child;
-                
-                // populate first child's subtree
-                node = node->child_first;
-            } else {
-                if (node->n_items > 0) {
-                    for (index_t i = 0; i < node->n_items - 1; ++i) {
-                        ++(node->items_last);
-                    }
-                    // move the item "free space"
-                    begin_items = last_item = node->items_last; ++begin_items;
-                }
-                    
-                // fixup the items_end along the right edge of this subtree.
-                NodeRef descendent = node;
-                for (NodeRef ancestor = node->parent;
-                        ancestor != this->_root;
-                        descendent = ancestor, ancestor = ancestor->parent) {
-                    if (ancestor->n_items > 0) ancestor->items_last = last_item;
-                }
-                
-                // done populating this tree. populate the next sibling tree.
-                node = this->node_successor(node);
+        recalculate_references(this->_root, begin_child, begin_items);
+    }
+    
+    
+    // in essence we "build" the tree by simply taking ownership of 
+    // the nodes/items that already exist. we walk over the nodes in 
+    // tree order, which means that child nodes are taken in order too.
+    // `begin_child` and `begin_items` are the next unassigned node and item.
+    void recalculate_references(
+            NodeRef  node,
+            NodeRef& begin_child,
+            ItemRef& begin_items) const {
+        node->child_first = node->child_last = this->_storage->_nodes.end();
+        node->items_first = node->items_last = this->_storage->_items.end();
+        
+        if (node->n_children > 0) {
+            // acquire direct children
+            node->child_first = begin_child;
+            for (index_t c = 0; c < node->n_children; ++c) {
+                node->child_last = begin_child++;
+                node->child_last->parent = node;
+            }
+            // populate the children's subtrees
+            NodeRef child = node->child_first;
+            for (index_t c = 0; c < node->n_children; ++c, ++child) {
+                recalculate_references(child, begin_child, begin_items);
+            }
+            this->_storage->update_boundary_items(node);
+        } else if (node->n_items > 0) {
+            node->items_first = begin_items;
+            for (index_t i = 0; i < node->n_items; ++i) {
+                node->items_last = begin_items++;
             }
         }
     }
-- 
2.43.0


From 26b5f60ef320dc4c5b2459555d8116a5e9f39227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 136/153] fix: Moving a Tree left its nodes referring to the
 ends of the old tree's lists

---
 geomc/Tree.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index b848d72..ceb9b71 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -184,8 +184,14 @@ public:
     }
     
     
-    /// Default move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other) = default;
+    /// Move constructor. `other` becomes an empty tree.
+    Tree(Tree<NodeItem, LeafItem>&& other):Tree() {
+        // (the nodes' references to the ends of the lists do not move along)
+        std::swap(_nodes, other._nodes);
+        std::swap(_items, other._items);
+        recalculate_tree();
+        other.recalculate_tree();
+    }
     
     
     /**
-- 
2.43.0


From ff84108a5bb95adac04d3aaaa066c35fdbad42ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 137/153] fix: Const Trees and ConstSubtrees did not compile

---
 geomc/Tree.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index ceb9b71..502012d 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -173,8 +173,9 @@ class Tree {
         
     };
     
-    std::list<Node>     _nodes;
-    std::list<LeafItem> _items;
+    // (mutable, because const iterators to nodes are made of NodeRefs too)
+    mutable std::list<Node>     _nodes;
+    mutable std::list<LeafItem> _items;
     
 public:
     
@@ -410,7 +411,7 @@ protected:
     typedef Tree<NodeItem, LeafItem>  Storage;
     typedef typename Storage::NodeRef NodeRef;
     typedef typename Storage::ItemRef ItemRef;
-    typedef typename Storage::ItemRef ConstItemRef;
+    typedef typename Storage::ConstItemRef ConstItemRef;
     typedef typename Storage::Node    Node;
     typedef typename std::conditional<
             Const,
@@ -915,6 +916,9 @@ protected:
     // curiously recurring pattern is weird :[
     ConstSubtree(const base_t& other):base_t(other) {}
     
+    ConstSubtree(const typename base_t::NodeRef& root, typename base_t::StorageRef storage):
+        base_t(root, storage) {}
+    
     ConstSubtree() {}
     
 public:
@@ -949,6 +953,7 @@ protected:
     using typename base_t::StorageRef;
     
     friend class SubtreeBase<NodeItem, LeafItem, false>;
+    friend class ConstSubtree<NodeItem, LeafItem>;
     friend class Tree<NodeItem, LeafItem>;
     
     // allow myself to construct myself.
-- 
2.43.0


From 757ffb46f6200bfd2ee7346d52385c512ee867bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 138/153] fix: Copying a Subtree to a new Tree did not compile

---
 geomc/Tree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 502012d..a0de7d4 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -225,7 +225,7 @@ public:
     
     /// Construct a new tree from the given subtree.
     Tree(const ConstSubtree<NodeItem, LeafItem>& other):
-            _nodes(other.subtree_begin(), other.subtree_end()),
+            _nodes(other.subtree_begin()._root, other.subtree_end()._root),
             _items(other.items_begin(), other.items_end()) {
         // make a root (we only added the children)
         _nodes.push_front(*other._root);
@@ -712,7 +712,8 @@ public:
      * nodes in this subtree, beginning with the first child of this node.
      */
     inline self_t subtree_begin() const {
-        return _root->child_first;
+        if (_root->n_children == 0) return subtree_end();
+        return self_t(_root->child_first, _storage);
     }
     
     
-- 
2.43.0


From 519638f6b1dadb4853f06e4700305efba97cda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 139/153] fix: Adopting a Tree's Subtree did not compile

---
 geomc/Tree.h | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index a0de7d4..b3d8def 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -952,6 +952,7 @@ protected:
     using typename base_t::NodeRef;
     using typename base_t::ItemRef;
     using typename base_t::StorageRef;
+    using typename base_t::Storage;
     
     friend class SubtreeBase<NodeItem, LeafItem, false>;
     friend class ConstSubtree<NodeItem, LeafItem>;
@@ -1330,7 +1331,8 @@ public:
      * this node immediately before `insert_before`.
      *
      * If `insert_before` is not a child or end-child of this node, the
-     * tree is unchanged and `end()` is returned.
+     * tree is unchanged and `end()` is returned. The same is true if this is
+     * a leaf node with items, which would be left without a leaf to belong to.
      *
      * Invalidates all `end()` subtrees.
      *
@@ -1339,33 +1341,31 @@ public:
      * @return An iterator pointing at the root of the new adopted subtree.
      */
     self_t adopt(const const_iterator& other_subtree, const self_t& insert_before) const {
-        self_t new_node = insert_child_node(insert_before, *other_subtree);
-        if (new_node == this->end()) return new_node;
+        if (this->node_count() == 0 and this->item_count() > 0) return this->end();
+        
+        // copy the subtree first; it might contain the new node.
+        Storage other(other_subtree);
+        
+        index_t n_before = this->node_count();
+        self_t new_node  = insert_child_node(insert_before, *other_subtree);
+        if (this->node_count() == n_before) return this->end();
         
         NodeRef n = new_node._root;
         
         // insert all the items
         // (also updates the boundary items; etc.)
         // new node is now a valid leaf with a buncha items:
-        ItemRef first_new_item = n.insert_items(
-            other_subtree.items_begin(),
-            other_subtree.items_end());
-        
-        // todo: _storage->_nodes.reserve(...)
+        new_node.insert_items(other._items.begin(), other._items.end());
         
         // insert all the descendent nodes
-        NodeRef subtree_end    = this->node_successor(n);
-        NodeRef first_new_node = this->_storage->_nodes.insert(
+        NodeRef subtree_end = this->node_successor(n);
+        n->n_children  = other._nodes.front().n_children;
+        n->child_first = std::next(other._nodes.begin());
+        this->_storage->_nodes.splice(
             subtree_end, 
-            other_subtree.subtree_begin()._root, 
-            other_subtree.subtree_end()._root);
-        
-        // update the new root's child list
-        n->n_children = other_subtree.node_count();
-        if (first_new_node != subtree_end) {
-            n->child_first = first_new_node;
-            n->child_last  = subtree_end; --(n->child_last);
-        }
+            other._nodes, 
+            std::next(other._nodes.begin()), 
+            other._nodes.end());
         
         // all the pointers/iterators inside the subtree have to point
         // to *our* storage; not the original storage
-- 
2.43.0


From f6f8ba67b39cb91e5aa50b703937d0eeefbbb011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 140/153] fix: Searching for the parent of a Tree item visited
 nodes outside of the subtree and skipped nodes in it

---
 geomc/Tree.h | 51 +++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index b3d8def..db774d9 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -754,13 +754,13 @@ public:
      * If `i` is not in the subtree under this node, then return `end()`.
      */
     self_t find_parent(const const_item_iterator& i) const {
+        if (_root->n_children == 0) {
+            return has_item(_root, i) ? self_t(_root, _storage) : this->end();
+        }
         NodeRef subtree_last = node_successor(_root);
-        for (NodeRef n = _root; n != subtree_last; ++n) {
-            if (n->n_children == 0 and n->n_items > 0) {
-                ItemRef end_item = n->items_last; ++end_item;
-                for (ItemRef j = n->items_first; j != end_item; ++j) {
-                    if (j == i) return self_t(n, _storage);
-                }
+        for (NodeRef n = _root->child_first; n != subtree_last; ++n) {
+            if (n->n_children == 0 and has_item(n, i)) {
+                return self_t(n, _storage);
             }
         }
         return this->end();
@@ -782,30 +782,27 @@ public:
      */
     template <bool BoundingFn(const NodeItem&, const LeafItem&)>
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef cur_root     = _root;
-        NodeRef subtree_last = node_successor(_root);
-        while (cur_root != subtree_last) {
+        NodeRef cur_root = _root;
+        while (true) {
             if (BoundingFn(cur_root->data, *i)) {
                 // cur_root may contain `i`
                 if (cur_root->n_children > 0) {
                     // recurse
                     cur_root = cur_root->child_first;
-                } else {
-                    // look for item
-                    ItemRef end_item = cur_root->items_last; ++end_item;
-                    for (ItemRef j = cur_root->items_first; j != end_item; ++j) {
-                        // found it
-                        if (j == i) return self_t(cur_root, _storage);
-                    }
-                    // our current node is a leaf, so there is no subtree to jump over.
-                    ++cur_root;
+                    continue;
+                } else if (has_item(cur_root, i)) {
+                    // found it
+                    return self_t(cur_root, _storage);
                 }
-            } else {
-                // check next sibling
-                cur_root = node_successor(cur_root);
             }
+            // check next sibling of this node, or of its nearest ancestor that has one
+            while (cur_root != _root and cur_root == cur_root->parent->child_last) {
+                cur_root = cur_root->parent;
+            }
+            if (cur_root == _root) break;
+            ++cur_root;
         }
-        return this->end();;
+        return this->end();
     }
     
     
@@ -842,6 +839,16 @@ public:
     }
     
 protected:
+    
+    // is `i` one of the items of the leaf `node`?
+    static bool has_item(const NodeRef& node, const const_item_iterator& i) {
+        ItemRef j = node->items_first;
+        for (index_t k = 0; k < node->n_items; ++k, ++j) {
+            if (j == i) return true;
+        }
+        return false;
+    }
+    
         
     // compute the position of the node that follows `node`'s subtree in 
     // "sibling-first" order. the successor to `node` occurs just before 
-- 
2.43.0


From 5ef519463f6d991e9b2b6d8dc6f4fe32071eeb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 141/153] fix: A query of a Tree ended at the first grandchild
 of its root

---
 geomc/Tree.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index db774d9..e0f0ce7 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -503,6 +503,7 @@ public:
         
         I          _item;
         I          _root;
+        bool       _done; // (the position of end() may be that of a descendent)
         Key        _key;
         BoundingFn _bound;
         TestFn     _test;
@@ -513,6 +514,7 @@ public:
         QueryIterator(const I& start, const Key& key, BoundingFn bound, TestFn test):
                 _item(start),
                 _root(start),
+                _done(start == start.tree().end()),
                 _key(key),
                 _bound(bound),
                 _test(test) {
@@ -521,18 +523,20 @@ public:
         
         /// Return true if this iterator points to the subtree at `other`.
         bool operator==(const I& other) const {
-            return other == _item;
+            return other == _item and _done == (other == _root.end());
         }
         
         /// Return true if this iterator does not point to the subtree at `other`.
         bool operator!=(const I& other) const {
-            return other != _item;
+            return not (*this == other);
         }
         
         /// Find the next result at or beyond the Subtree `other`.
         QueryIterator& operator=(const I& other) {
             _item = other;
+            _done = other == _root.end();
             find_result();
+            return *this;
         }
     
     private:
@@ -541,20 +545,23 @@ public:
             if (_item.node_count() > 0 and _bound(_item, _key)) {
                 // descend into tree
                 _item = _item.begin();
-            } else if (_item == _root) {
-                _item = _root.end();
             } else {
                 // nothing further for us here. pop back out.
                 // while item is the last child of its parent, ascend:
-                while (_item._root == _item.parent()._root->child_last and _item.parent() != _root) {
+                while (_item != _root and _item._root == _item.parent()._root->child_last) {
                     _item = _item.parent();
                 }
-                ++_item;
+                if (_item == _root) {
+                    _done = true;
+                    _item = _root.end();
+                } else {
+                    ++_item;
+                }
             }
         }
         
         void find_result() {
-            while (_item != _root.end() and _item != _item.tree().end() and not _test(_item, _key)) {
+            while (not _done and not _test(_item, _key)) {
                 next_candidate();
             }
         }
@@ -567,7 +574,7 @@ public:
         }
         
         bool equal(const QueryIterator& other) const {
-            return _item == other._item;
+            return _item == other._item and _done == other._done;
         }
         
         const I& dereference() const {
-- 
2.43.0


From cc47cc1f7fce102b995f89342df1f1551ec42eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 142/153] fix: Tree operations stepped to before the first item
 of the tree

---
 geomc/Tree.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index e0f0ce7..b38a48f 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -210,7 +210,7 @@ public:
         
         // assign items to root
         node->items_first = _items.begin();
-        node->items_last  = _items.end(); --(node->items_last);
+        node->items_last  = _items.empty() ? _items.end() : std::prev(_items.end());
         node->n_items     = _items.size();
     }
     
@@ -1217,7 +1217,7 @@ public:
         } else {
             new_begin = n->items_first;
         }
-        if (std::prev(new_item) == n->items_last or n->n_items == 0) {
+        if (n->n_items == 0 or new_item == std::next(n->items_last)) {
             new_end = new_item;
         } else {
             new_end = n->items_last;
@@ -1310,7 +1310,7 @@ public:
         } else {
             new_begin = n->items_first;
         }
-        if (std::prev(first_new_item) == n->items_last or n->n_items == 0) {
+        if (n->n_items == 0 or first_new_item == std::next(n->items_last)) {
             new_end = last_new_item;
         } else {
             new_end = n->items_last;
@@ -1435,7 +1435,8 @@ public:
         // boundary between `lo` and `hi` and swapping the contents of the iterators.
         // we traverse backwards so that our swapping does not unsort our items.
         
-        for (ItemRef i = hi->items_last; i != std::prev(hi->items_first); ) {
+        ItemRef i = hi->items_last;
+        for (index_t untested = hi->n_items; untested > 0; --untested) {
             if (compare(*i, pivot) < 0) {
                 // move the item to the lower node
                 
@@ -1459,7 +1460,7 @@ public:
                 // we do not decrement i, because we've just moved
                 // an untested item underneath it. we should test
                 // it first before moving on to the next one.
-            } else {
+            } else if (i != hi->items_first) {
                 // `*i` is in the right place.
                 --i;
             }
@@ -1520,7 +1521,8 @@ public:
                 
                 // figure out the new begin / end items
                 ItemRef new_begin = is_first ? next_item            : n->items_first;
-                ItemRef new_end   = is_last  ? std::prev(next_item) : n->items_last;
+                ItemRef new_end   = not is_last ? n->items_last : 
+                                    is_first    ? next_item     : std::prev(next_item);
                 
                 this->_storage->update_boundary_items(
                     n, 
-- 
2.43.0


From fac7e7f6e74c02ef1e46ec05f859fea354c06ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 143/153] fix: Tree operations looked up the parent of the end
 of the tree

---
 geomc/Tree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index b38a48f..2a9c713 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1027,7 +1027,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n != this->end()._root and n->parent != p) return this->end();
+        if (n != this->end()._root and (n == this->_storage->_nodes.end() or n->parent != p)) return this->end();
         
         // set the insert point for empty nodes
         if (parent_childless) {
@@ -1108,7 +1108,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (this->end()._root != n and n->parent != p) return this->end();
+        if (n != this->end()._root and (n == this->_storage->_nodes.end() or n->parent != p)) return this->end();
         if (i_begin == i_end)                          return this->end();
         
         // set the insert point for empty nodes
@@ -1573,7 +1573,8 @@ public:
      */
     self_t erase(const self_t& child, bool* success=nullptr) const {
         // child must be our child
-        if (child._root->parent != this->_root or 
+        if (child._root == this->_storage->_nodes.end() or
+            child._root->parent != this->_root or 
             // and must not be global root
             child._root->parent == this->_storage->_nodes.end()) {
             if (success) *success = false;
-- 
2.43.0


From e8d551cc920d70609c2d86b84b9798d3a5c014f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 144/153] fix: A Tree was left with items or nodes it does not
 count if copying one of several new ones failed

---
 geomc/Tree.h | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 2a9c713..f71b68e 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1116,12 +1116,18 @@ public:
             n = this->node_successor(p);
         }
         
-        // create the first node, and keep a reference to it
-        // todo: this->_storage->_nodes.reserve(n_items);
-        NodeRef prev_end_node  = this->end()._root;
-        NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, typename base_t::Node(this->_storage, p, *(i_begin++)));
-        NodeRef last_new_node  = first_new_node;
+        // remember what our off-end node was
+        NodeRef prev_end_node = this->end()._root;
+        
+        // make all the nodes, and only then insert them
+        std::list<typename base_t::Node> new_nodes;
+        for (NodeItemIterator i = i_begin; i != i_end; ++i) {
+            new_nodes.push_back(typename base_t::Node(this->_storage, p, *i));
+        }
+        index_t ct             = new_nodes.size();
+        NodeRef first_new_node = new_nodes.begin();
+        NodeRef last_new_node  = std::prev(new_nodes.end());
+        this->_storage->_nodes.splice(n, new_nodes);
         
         // transfer ownership of the parent's items to the first child.
         // (every item must belong to a leaf node, and the parent
@@ -1132,13 +1138,6 @@ public:
             first_new_node->n_items     = p->n_items;
         }
         
-        // add the rest of the nodes
-        index_t ct = 1;
-        for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
-            last_new_node = this->_storage->_nodes.insert(
-                n, typename base_t::Node(this->_storage, p, *i));
-        }
-        
         // adjust child endpoints if necessary
         if (insert_before._root == prev_end_node) {
             p->child_last = last_new_node;
@@ -1291,17 +1290,12 @@ public:
             insert_pt = this->item_successor(n);
         }
         
-        // insert the first item
-        ItemRef first_new_item = this->_storage->_items.insert(insert_pt, *begin_item);
-        ItemRef last_new_item  = first_new_item;
-        ++begin_item;
-        
-        // insert the remaining items
-        index_t item_ct = 1;
-        for (LeafItemIterator i = begin_item; i != end_item; ++i) {
-            last_new_item = this->_storage->_items.insert(insert_pt, *i);
-            ++item_ct;
-        }
+        // make all the items, and only then insert them
+        std::list<LeafItem> new_items(begin_item, end_item);
+        index_t item_ct        = new_items.size();
+        ItemRef first_new_item = new_items.begin();
+        ItemRef last_new_item  = std::prev(new_items.end());
+        this->_storage->_items.splice(insert_pt, new_items);
         
         // figure out the new begin/end items
         ItemRef new_begin, new_end;
-- 
2.43.0


From 966a6255337462e0fc589a572e875434d172a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 145/153] fix: A finished region iterator of
 BinLatticePartition could equal one which is not

---
 geomc/shape/BinLatticePartition.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index cd16932..eb8df49 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -181,8 +181,9 @@ public:
         }
 
         bool equal(region_iterator const & other) const {
-            if (off_end and other.off_end){
-                return true;
+            if (off_end or other.off_end){
+                // an iterator which has run off the end keeps a leftover cell iterator
+                return off_end == other.off_end;
             } else {
                 return other.cur_cell_iter == cur_cell_iter;
             }
-- 
2.43.0


From b00b42ae5b8eb2d81faf340182d1b66bbf2191da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 146/153] fix: SmallStorage lost or destroyed elements twice if
 constructing one failed

---
 geomc/SmallStorage.h | 80 ++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 8faf144..20bee8b 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -47,6 +47,14 @@ private:
         }
     }
     
+    // make room for exactly `n` items in an array that never had any
+    void _allocate(size_t n) {
+        if (n > N) {
+            _data     = new storage_t[n];
+            _capacity = n;
+        }
+    }
+    
     void _ensure_capacity(size_t n) {
         if (n > _capacity) {
             size_t new_capacity = std::max(n, _capacity * 2);
@@ -78,61 +86,46 @@ public:
     SmallStorage():_data(_buffer) {}
     
     /// Construct an array containing `n` default-constructed items.
-    explicit SmallStorage(size_t n):
-        _capacity(std::max(n,N)),
-        _size(n),
-        _data(n > N ? new storage_t[n] : _buffer)
-    {
-        for (size_t i = 0; i < n; ++i) {
+    explicit SmallStorage(size_t n):SmallStorage() {
+        _allocate(n);
+        for (; _size < n; ++_size) {
             // default construct
-            new (_data + i) T{};
+            new (_data + _size) T{};
         }
     }
     
     /// Construct an array by move-constructing the items in the given initializer list.
-    SmallStorage(std::initializer_list<T> items):
-        _capacity(std::max(items.size(), N)),
-        _size(items.size()),
-        _data(_capacity > N ? new storage_t[_size] : _buffer)
-    {
-        for (size_t i = 0; i < _size; ++i) {
+    SmallStorage(std::initializer_list<T> items):SmallStorage() {
+        _allocate(items.size());
+        for (; _size < items.size(); ++_size) {
             // move construct
-            new (_data + i) T{std::move(items.begin()[i])};
+            new (_data + _size) T{std::move(items.begin()[_size])};
         }
     }
     
     /// Construct an array of `n` items by copy-constructing the items from the given array.
-    SmallStorage(const T* items, size_t n):
-        _capacity(std::max(n, N)),
-        _size(n),
-        _data(_capacity > N ? new storage_t[_size] : _buffer)
-    {
-        for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) T {items[i]};
+    SmallStorage(const T* items, size_t n):SmallStorage() {
+        _allocate(n);
+        for (; _size < n; ++_size) {
+            new (_data + _size) T {items[_size]};
         }
     }
     
     /// Construct an array containing `count` copies of `value`.
-    SmallStorage(const T& value, size_t count):
-        _capacity(std::max(count, N)),
-        _size(count),
-        _data(_capacity > N ? new storage_t[_size] : _buffer)
-    {
-        for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) T {value};
+    SmallStorage(const T& value, size_t count):SmallStorage() {
+        _allocate(count);
+        for (; _size < count; ++_size) {
+            new (_data + _size) T {value};
         }
     }
     
     /// Construct an array containing the elements of `other`.
-    SmallStorage(const SmallStorage<T,N>& other):
-        _capacity(std::max(other._size, N)),
-        _size(other._size),
-        _data(_capacity > N ? new storage_t[_size] : _buffer)
-    {
+    SmallStorage(const SmallStorage<T,N>& other):SmallStorage() {
+        _allocate(other._size);
         const T* src = other.begin();
-        for (size_t i = 0; i < _size; ++i) {
+        for (; _size < other._size; ++_size) {
             // copy construct
-            new (_data + i) T {src[i]};
+            new (_data + _size) T {src[_size]};
         }
     }
     
@@ -197,13 +190,15 @@ public:
     /// Copy the contents of `other` into this array.
     SmallStorage<T,N>& operator=(const SmallStorage<T,N>& other) {
         if (&other == this) return *this; // no self-assign
-        _destroy(_data, _size);
+        clear();
         if (_capacity < other._size) {
             // we cannot hold the incoming items without allocating.
             // create the array anew
+            size_t new_capacity = std::min(other._capacity, 2 * other._size);
+            storage_t* new_data = new storage_t[new_capacity];
             if (_capacity > N) delete [] _data;
-            _capacity = std::min(other._capacity, 2 * other._size);
-            _data     = new storage_t[_capacity];
+            _capacity = new_capacity;
+            _data     = new_data;
         } else {
             // todo: we could copy-assign to the live items,
             //   but we'd probably also want to statically check that
@@ -211,10 +206,9 @@ public:
             //   when it isn't necessary
         }
         const T* src = other.begin();
-        for (size_t i = 0; i < other._size; ++i) {
-            new (_data + i) T {src[i]};
+        for (; _size < other._size; ++_size) {
+            new (_data + _size) T {src[_size]};
         }
-        _size = other._size;
         return *this;
     }
     
@@ -310,8 +304,8 @@ public:
         if (count > _size) {
             // construct the missing items
             _ensure_capacity(count);
-            for (size_t i = _size; i < count; ++i) {
-                new (_data + i) T {args...};
+            for (; _size < count; ++_size) {
+                new (_data + _size) T {args...};
             }
         } else if constexpr (not std::is_trivially_destructible_v<T>) {
             // destroy the excess items
-- 
2.43.0


From 0a606aac934dbf921082afdaf5fdc743cdf8b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 147/153] fix: Deque lost elements or counted unmade ones if
 constructing one failed

---
 geomc/Deque.h | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 3b66c9c..7b3209c 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -75,30 +75,20 @@ public:
      * starting at `begin`.
      */
     template <typename InputIterator>
-    Deque(InputIterator begin, index_t count):
-            _data((count > N) ? (new storage_t[count]) : _buf),
-            _capacity(std::max(count, N)),
-            _head(0),
-            _size(count)
-    {
+    Deque(InputIterator begin, index_t count):Deque(count) {
         // placement construct all the items in the provided range:
-        for (index_t i = 0; i < count; ++i, ++begin) {
-            T* p = get() + i;
+        for (; _size < count; ++_size, ++begin) {
+            T* p = get() + _size;
             new (p) T(*begin);
         }
     }
     
     /// Construct a new circular buffer containing copies of all the items in `other`.
-    Deque(const Deque<T,N>& other):
-            _data((other._capacity > N) ? (new storage_t[other._capacity]) : _buf),
-            _capacity(std::max(other._capacity, N)),
-            _head(0),
-            _size(other._size)
-    {
+    Deque(const Deque<T,N>& other):Deque(other._capacity) {
         // copy-construct the populated items:
-        for (index_t i = 0; i < _size; ++i) {
-            T* p = get() + i;
-            new (p) T(other[i]);
+        for (; _size < other._size; ++_size) {
+            T* p = get() + _size;
+            new (p) T(other[_size]);
         }
     }
     
@@ -150,9 +140,9 @@ public:
             this->operator[](i) = other[i];
         }
         // copy-construct new items
-        for (index_t i = n; i < new_size; ++i) {
-            T* p = item(i);
-            new (p) T(other[i]);
+        for (; _size < new_size; ++_size) {
+            T* p = item(_size);
+            new (p) T(other[_size]);
         }
         // destroy extra items
         for (index_t i = n; i < old_size; ++i) {
@@ -291,10 +281,11 @@ public:
             return push_front(std::move(tmp));
         }
         const index_t n = capacity();
-        _head = (_head + n - 1) % n;
-        T* place = get() + _head;
+        const index_t head = (_head + n - 1) % n;
+        T* place = get() + head;
         // placement new, using move semantics if applicable:
         new (place) T(std::forward<U>(t));
+        _head  = head;
         _size += 1;
         return *place;
     }
-- 
2.43.0


From 8462f078e0e974c7b42f29139d84b2402b428fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 148/153] fix: UniqueStorage kept released memory if an
 assignment ran out of memory, and leaked if copying an element failed

---
 geomc/Storage.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index ca3c6a0..e5be09e 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -251,14 +251,12 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
             sz(n) {}
 
     UniqueStorage(index_t n, const T* srcdata):
-            data(new T[n]),
-            sz(n) {
+            UniqueStorage(n) {
         std::copy(srcdata, srcdata + n, data);
     }
     
     UniqueStorage(std::initializer_list<T> srcdata):
-            data(new T[srcdata.size()]),
-            sz(srcdata.size()) {
+            UniqueStorage((index_t)srcdata.size()) {
         std::copy(srcdata.begin(), srcdata.end(), data);
     }
 
@@ -272,8 +270,7 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
 #endif
 
     UniqueStorage(const UniqueStorage<T,0>& other):
-            data(new T[other.sz]),
-            sz(other.sz) {
+            UniqueStorage(other.sz) {
         std::copy(other.data, other.data + sz, data);
     }
     
@@ -296,10 +293,11 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
     UniqueStorage& operator=(const UniqueStorage<T,0>& other) {
         if (&other == this) return *this;
         if (sz != other.sz) {
+            T* resized = new T[other.sz];
             if (data) delete [] data;
-            data = new T[other.sz];
+            data = resized;
+            sz   = other.sz;
         }
-        sz = other.sz;
         std::copy(other.data, other.data + sz, data);
         return *this;
     }
-- 
2.43.0


From 57b40d58a4bdc13631f67a15e08a6eb3863a24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 149/153] fix: DiagMatrix changed its dimension if an
 assignment ran out of memory

---
 geomc/linalg/mtxtypes/DiagMatrix.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/mtxtypes/DiagMatrix.h b/geomc/linalg/mtxtypes/DiagMatrix.h
index 4b1fbf6..b0fa485 100644
--- a/geomc/linalg/mtxtypes/DiagMatrix.h
+++ b/geomc/linalg/mtxtypes/DiagMatrix.h
@@ -36,11 +36,11 @@ namespace detail {
 template <typename T, index_t M, index_t N>
 class DiagMatrix : public detail::MatrixBase<T,M,N, DiagMatrix<T,M,N> > {
     
-    index_t diag;
 #ifndef PARSING_DOXYGEN
     // this shit confuses doxygen because it am stoopid
     UniqueStorage<T, ((M<N)?M:N) > data;
 #endif
+    index_t diag; // assigned after `data`, which might run out of memory
     typename Dimension<M>::storage_t n_rows;
     typename Dimension<N>::storage_t n_cols;
     
@@ -60,8 +60,8 @@ public:
 #else
     explicit DiagMatrix(index_t nrows=detail::DefinedIf<M != DYNAMIC_DIM, M>::value, 
                index_t ncols=detail::DefinedIf<N != DYNAMIC_DIM, N>::value) :
-                     diag(nrows < ncols ? nrows : ncols),
-                     data(diag) {
+                     data(nrows < ncols ? nrows : ncols),
+                     diag(nrows < ncols ? nrows : ncols) {
         Dimension<M>::set(n_rows, nrows);
         Dimension<N>::set(n_cols, ncols);
         set_identity(); 
@@ -79,8 +79,8 @@ public:
 #else
     DiagMatrix(const T src[], 
                index_t n=detail::DefinedIf<M * N != DYNAMIC_DIM, (M < N ? M : N)>::value) :
-                   diag(n),
-                   data(diag) {
+                   data(n),
+                   diag(n) {
         Dimension<M>::set(n_rows, n);
         Dimension<N>::set(n_cols, n);
         std::copy(src, src + n, data.get());
-- 
2.43.0


From 6389fbdf2e889beea2d099473384e039e4ce42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 150/153] fix: PermutationMatrix changed only one of its arrays
 if an assignment ran out of memory

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 7608f5d..d65bb6c 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -65,6 +65,16 @@ public:
                 row_src(n),
                 row_dst(n) {}
     
+    PermuteMatrixBase(const PermuteMatrixBase<DYNAMIC_DIM>&) = default;
+    PermuteMatrixBase(PermuteMatrixBase<DYNAMIC_DIM>&&)      = default;
+    
+    // both arrays change, or neither if there is no memory for them
+    PermuteMatrixBase& operator=(PermuteMatrixBase<DYNAMIC_DIM> other) {
+        row_src = std::move(other.row_src);
+        row_dst = std::move(other.row_dst);
+        return *this;
+    }
+    
 protected:
     inline index_t _rows() const { return row_src.size(); }
     inline index_t _cols() const { return row_src.size(); }
-- 
2.43.0


From 6b2ef72d677b143d2401e2f09c61e0fa01ea1355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 151/153] fix: Harmonics changed their number of bands if an
 assignment ran out of memory

---
 geomc/function/SphericalHarmonics.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 49c9293..3cc375c 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -152,11 +152,13 @@ inline T spherical_harmonic_coeff(index_t l, index_t m, T cos_alt, T azi) {
  */
 template <typename T, index_t Bands>
 class SphericalHarmonics {
-    protected:
-    typename Dimension<Bands>::storage_t n_bands;
     public:
     /// Coefficient vector.
     UniqueStorage<T,Bands*Bands> coeffs;
+    protected:
+    // (assigned after `coeffs`, which might run out of memory)
+    typename Dimension<Bands>::storage_t n_bands;
+    public:
     
     /**
      * Construct a new SphericalHarmonics. 
@@ -583,11 +585,13 @@ class SphericalHarmonics {
  */
 template <typename T, index_t Bands>
 class ZonalHarmonics {
-    protected:
-    typename Dimension<Bands>::storage_t n_bands;
     public:
     /// Coefficient vector.
     UniqueStorage<T,Bands> coeffs;
+    protected:
+    // (assigned after `coeffs`, which might run out of memory)
+    typename Dimension<Bands>::storage_t n_bands;
+    public:
     
     /**
      * Construct a new ZonalHarmonics.
-- 
2.43.0


From ff823c9b5e2e2d12fdb355b48939ef8bf51c5ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 152/153] fix: Which coordinate of a random point in a box was
 drawn first depended on the compiler

---
 geomc/random/RandomTools.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index a3ee499..21eb0d9 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -310,11 +310,11 @@ public:
      */
     inline Vec<T,3> box(T minx, T miny, T minz,
                         T maxx, T maxy, T maxz) {
-        return Vec<T,3>(
-                this->rng->template rand<T>(minx, maxx),
-                this->rng->template rand<T>(miny, maxy),
-                this->rng->template rand<T>(minz, maxz)
-        );
+        // (the order in which arguments are evaluated is up to the compiler)
+        T x = this->rng->template rand<T>(minx, maxx);
+        T y = this->rng->template rand<T>(miny, maxy);
+        T z = this->rng->template rand<T>(minz, maxz);
+        return Vec<T,3>(x, y, z);
     }
     
     /**********************************
@@ -386,8 +386,9 @@ public:
      */
     inline Vec<T,2> box(T minx, T miny, 
                         T maxx, T maxy) {
-        return Vec<T,2>(this->rng->template rand<T>(minx, maxx),
-                        this->rng->template rand<T>(miny, maxy));
+        T x = this->rng->template rand<T>(minx, maxx);
+        T y = this->rng->template rand<T>(miny, maxy);
+        return Vec<T,2>(x, y);
     }
 };
 
-- 
2.43.0


From ee11eb2a06274c04385ae25227e962f7ef1809e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:56 +0000
Subject: [PATCH 153/153] fix: GridIterator steps back and measures distance
 over unsigned coordinates

---
 geomc/shape/GridIterator.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 73377a1..aebd420 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -143,10 +143,13 @@ private:
     }
     
     inline void decrement() {
-        for (index_t i = dim_first;
-                i != dim_end and --(pt[i]) < region.lo[i];
-                i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i];
+        for (index_t i = dim_first; i != dim_end; i += dim_increment) {
+            // (compare before decrementing; an unsigned coordinate has nothing below 0)
+            if (i == dim_last or pt[i] > region.lo[i]) {
+                --(pt[i]);
+                break;
+            }
+            pt[i] = region.hi[i];
         }
     }
     
@@ -170,11 +173,13 @@ private:
     
     inline index_t distance_to(const GridIterator<T,N,Order> &other) const {
         point_t dim  = region.dimensions(); 
-        point_t jump = other.pt - pt;
         index_t dist = 0;
         index_t vol  = 1;
         for (index_t i = dim_first; i != dim_end; i += dim_increment) {
-            dist += vol * jump[i];
+            // (the coordinates may be unsigned)
+            dist += (other.pt[i] < pt[i])
+                ? -vol * (index_t)(pt[i] - other.pt[i])
+                :  vol * (index_t)(other.pt[i] - pt[i]);
             vol  *= std::max(dim[i], (T)0);
         }
         return dist;
@@ -258,7 +263,10 @@ private:
     }
     
     inline index_t distance_to(const GridIterator<T,1,Order> &other) const {
-        return other.pt - pt;
+        // (the coordinates may be unsigned)
+        return (other.pt < pt)
+            ? -(index_t)(pt - other.pt)
+            :  (index_t)(other.pt - pt);
     }
     
     inline const point_t& dereference() const {
-- 
2.43.0

