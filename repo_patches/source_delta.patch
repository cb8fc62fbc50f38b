From 73775f7ce81b9c18c1371e9dd7063647413ff302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 01/30] fix: avoid signed overflow in single block uint_t
 multiplication

---
 src/uint_t.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bb167e3..425dfca 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -480,7 +480,8 @@ public: /* Methods: */
 
         // static if
         if (num_of_blocks == 1) {
-            uint_t result = x.least_significant_block() * y.least_significant_block();
+            uint_t result = multHiLo(x.least_significant_block(),
+                                     y.least_significant_block()).lo;
             result.clear_unused_bits_();
             return result;
         }
-- 
2.43.0


From 2ab6b53f112edff023e44460270097695633bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 02/30] fix: make uint_t shifts by a uint_t amount compile

---
 src/uint_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 425dfca..5f33db6 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -747,7 +747,7 @@ private: /* Methods: */
     // TODO: we are assuming that blocks are not greater than 64 bits!
     std::uint64_t as_uint64_t() const {
         std::uint64_t out = 0;
-        std::size_t const s = min(num_of_bits, 64u);
+        std::size_t const s = (num_of_bits < 64u) ? num_of_bits : 64u;
         for (std::size_t i = 0u, j = 0u; j < s; ++i, j += bits_in_block)
             out ^= static_cast<std::uint64_t>(block (i)) << j;
         return out;
-- 
2.43.0


From 743e3137df01a7471a83749d680af3edeb4bc273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 03/30] fix: construct uint_t of at most 64 bits from uint128_t

---
 src/uint_t.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 5f33db6..7613d6f 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -814,8 +814,10 @@ private: /* Methods: */
     {
         static void impl(uint_t<N, B>& dest, const T& other) {
             dest = 0;
-            dest += other.upper ();
-            dest <<= 64;
+            if (N > 64u) {
+                dest += other.upper ();
+                dest <<= 64;
+            }
             dest += other.lower ();
         }
     };
-- 
2.43.0


From 77bac7f64dc74e6a965642dfb9c3849777e5bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 04/30] fix: divMod of 1-bit uint_t asserted on shift amount

---
 src/uint_t.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uint_t.h b/src/uint_t.h
index 7613d6f..f94665a 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -562,6 +562,12 @@ public: /* Methods: */
         quot = 0;
         rem = 0;
 
+        // The only nonzero 1-bit divisor is 1, and shifting by 1 is not valid:
+        if (num_of_bits == 1u) {
+            const div_t result = { x, rem };
+            return result;
+        }
+
         uint_t bit = 1;
         bit <<= (num_of_bits - 1);
         while (bit != 0) {
-- 
2.43.0


From 1d15bb6a0a7a8362728169391c2d12fe1d865a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 05/30] fix: UnalignedReference assignment copied bytes of
 unconverted values

---
 src/UnalignedReference.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/UnalignedReference.h b/src/UnalignedReference.h
index 2000ee9..9923fcf 100644
--- a/src/UnalignedReference.h
+++ b/src/UnalignedReference.h
@@ -61,7 +61,8 @@ public: /* Methods: */
         type
     >::type &
     operator=(T_ && v) noexcept {
-        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));
+        T const & value = v; // Converts to T if necessary
+        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));
         return *this;
     }
 
-- 
2.43.0


From c241a920537aff3cd4cccf7943e540c7bc15b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 06/30] fix: UnalignedPointer difference did not compile and
 mishandled negative distances

---
 src/UnalignedPointer.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index a6af1f5..a0c708c 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -105,8 +105,15 @@ class UnalignedPointer {
                           UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_, typename U_>
-    friend bool operator-(UnalignedPointer<T_> const & lhs,
-                          UnalignedPointer<U_> const & rhs) noexcept;
+    friend typename std::enable_if<
+        std::is_same<
+            typename std::remove_cv<T_>::type,
+            typename std::remove_cv<U_>::type
+        >::value,
+        std::ptrdiff_t
+    >::type
+    operator-(UnalignedPointer<T_> const & lhs,
+              UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_>
     friend UnalignedPointer<T_> operator+(
@@ -226,7 +233,10 @@ typename std::enable_if<
 >::type
 operator-(UnalignedPointer<T> const & lhs, UnalignedPointer<U> const & rhs)
         noexcept
-{ return ptrDist(rhs.m_ptr, lhs.m_ptr) / sizeof(T); }
+{
+    return ptrDist<void const volatile>(rhs.m_ptr, lhs.m_ptr)
+           / static_cast<std::ptrdiff_t>(sizeof(T));
+}
 
 template <typename T>
 UnalignedPointer<T> operator+(
-- 
2.43.0


From 95b967092a68cbb79fd282ef0cd29c05751199b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 07/30] fix: PackedStruct minSizeInBytes did not compile

---
 src/PackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index 2a01657..bf727d6 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -160,7 +160,7 @@ struct PackingInfo {
     constexpr static std::size_t staticSize() \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t minSizeInBytes() \
-    { return PackingInfo<__VA_ARGS__>::minSizeInBytes; } \
+    { return PackingInfo<__VA_ARGS__>::minSizeInBytes(); } \
     constexpr static std::size_t maxSizeInBytes() \
     { return PackingInfo<__VA_ARGS__>::maxSizeInBytes(); } \
     constexpr static std::size_t numFields() \
-- 
2.43.0


From 6feefa7abfda7876268815ce57992d1ad17b5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 08/30] fix: DynamicPackedStruct assignment operators

---
 src/DynamicPackedStruct.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index ce5a9e4..1dfb25c 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -138,17 +138,20 @@ public: /* Methods: */
     DynamicPackedStruct & operator=(type && move) noexcept {
         m_data = std::move(move.m_data);
         m_sizes = std::move(move.m_sizes);
+        return *this;
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
         constexpr static auto lastSizesIndex = numDynamicFields() - 1u;
+        if (this == &copy)
+            return *this;
         if (copy.m_data) {
             if (m_data) {
                 if (m_sizes[lastSizesIndex] != copy.m_sizes[lastSizesIndex]) {
                     if (void * const newData =
                             ::operator new(copy.size(), std::nothrow))
                     {
-                        m_data = newData;
+                        m_data.reset(newData);
                     } else {
                         if (m_sizes[lastSizesIndex]
                                 < copy.m_sizes[lastSizesIndex])
@@ -156,13 +159,14 @@ public: /* Methods: */
                     }
                 }
             } else {
-                m_data = ::operator new(copy.size());
+                m_data.reset(::operator new(copy.size()));
             }
             std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
         } else {
             m_data.reset();
         }
         m_sizes = copy.m_sizes;
+        return *this;
     }
 
     void * data() noexcept { return m_data.get(); }
-- 
2.43.0


From d3c4d4780957e1cce188af59659cc59490928e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 09/30] fix: DynamicPackedStruct set() returned a dangling
 reference

---
 src/DynamicPackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index b1cb0fd..5d38868 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -415,7 +415,7 @@ struct AccumArrayType
     auto set(void * const data, ElemType<I> const & v) const noexcept ->
             typename std::enable_if<
                 TypeTraits<I>::isStatic,
-                decltype(ref<I>(data) = v)
+                ReferenceType<I>
             >::type
     { return ref<I>(data) = v; }
 
-- 
2.43.0


From 96f289639d8d59104a46c3c9c384d3e0b7eb2fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 10/30] fix: BasicStringView::rfind searched only at position 0
 by default

---
 src/StringView.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 0f069a4..976a93f 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -425,10 +425,12 @@ public: /* Methods: */
         return npos;
     }
 
-    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos)
+            const noexcept
     { return rfind(v.m_start, pos, v.m_size); }
 
-    constexpr SizeType rfind(CharT const * str, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(CharT const * str, SizeType pos = npos)
+            const noexcept
     { return rfind(str, pos, Traits::length(str)); }
 
     constexpr SizeType findFirstOf(CharT c, SizeType pos = 0u) const noexcept
-- 
2.43.0


From d65664615ea92058524ad6c9c5380b70b101ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 11/30] fix: Flags and AtomicFlags of an integral type did not
 compile

---
 src/AtomicFlags.h | 5 +++--
 src/Flags.h       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 185f858..bbda22f 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -23,6 +23,7 @@
 #include <atomic>
 #include <type_traits>
 #include "Flags.h"
+#include "TypeIdentity.h"
 
 
 namespace sharemind {
@@ -187,8 +188,8 @@ using AtomicFlags =
             EnumOrIntegral,
                 typename std::conditional<
                     std::is_integral<EnumOrIntegral>::value,
-                    EnumOrIntegral,
-                    typename std::underlying_type<EnumOrIntegral>::type>::type>;
+                    TypeIdentity<EnumOrIntegral>,
+                    std::underlying_type<EnumOrIntegral>>::type::type>;
 
 } /* namespace Sharemind { */
 
diff --git a/src/Flags.h b/src/Flags.h
index dee9c60..ef87ca7 100644
--- a/src/Flags.h
+++ b/src/Flags.h
@@ -21,6 +21,7 @@
 #define SHAREMIND_FLAGS_H
 
 #include <type_traits>
+#include "TypeIdentity.h"
 
 
 namespace sharemind {
@@ -104,8 +105,8 @@ using Flags =
             EnumOrIntegral,
             typename std::conditional<
                 std::is_integral<EnumOrIntegral>::value,
-                EnumOrIntegral,
-                typename std::underlying_type<EnumOrIntegral>::type>::type>;
+                TypeIdentity<EnumOrIntegral>,
+                std::underlying_type<EnumOrIntegral>>::type::type>;
 
 } /* namespace Sharemind { */
 
-- 
2.43.0


From b49d8d0b0a449afac0c2bc6c45d3885585619df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 12/30] fix: AtomicFlags::load was not const, so its const
 queries did not compile

---
 src/AtomicFlags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index bbda22f..b8f0d13 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -38,7 +38,7 @@ public: /* Methods: */
     constexpr explicit AtomicFlags(U const value) noexcept : m_flags{value} {}
 
     Flags<T, U> load(std::memory_order const memoryOrder =
-                             std::memory_order_seq_cst) noexcept
+                             std::memory_order_seq_cst) const noexcept
     { return m_flags.load(memoryOrder); }
 
     void store(U const flags,
-- 
2.43.0


From 43424151cda8e487cdfc322d162f5446770ea847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 13/30] fix: AlignedAllocator and aligned storage with an
 alignment below sizeof(void *) always failed

---
 src/AlignedAllocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d2ddfc9..3235935 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -35,7 +35,10 @@ inline void * allocateAlignedStorage(std::size_t const size,
                                      std::nothrow_t const &) noexcept
 {
     void * p;
-    if (::posix_memalign(&p, ALIGNMENT, size) != 0)
+    // posix_memalign() only accepts multiples of sizeof(void *):
+    constexpr std::size_t const alignment =
+            (ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT;
+    if (::posix_memalign(&p, alignment, size) != 0)
         return nullptr;
     return p;
 }
-- 
2.43.0


From 1fd92e6d78a95d84a8e8e828b9fec246bb3ca198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 14/30] fix: AlignedAllocator::allocate() returned too little
 storage when the size overflows

---
 src/AlignedAllocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index 3235935..bfbaa46 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -118,6 +118,8 @@ struct AlignedAllocator {
     AlignedAllocator(AlignedAllocator<U> const &) noexcept {}
 
     static pointer allocate(size_type const n) {
+        if (n > static_cast<std::size_t>(-1) / sizeof(T))
+            throw std::bad_alloc();
         return static_cast<pointer>(
                     allocateAlignedStorage<alignof(T)>(n * sizeof(T)));
     }
-- 
2.43.0


From 68015f9925fa0f138a4fd78a36d32c817bb414fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 15/30] fix: UninitializedDynamicArray move assignment did not
 return

---
 src/UninitializedDynamicArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UninitializedDynamicArray.h b/src/UninitializedDynamicArray.h
index 098e923..49e8450 100644
--- a/src/UninitializedDynamicArray.h
+++ b/src/UninitializedDynamicArray.h
@@ -70,6 +70,7 @@ public: /* Methods: */
         m_size = move.m_size;
         m_data = std::move(move.m_data);
         move.m_size = 0u;
+        return *this;
     }
 
     UninitializedDynamicArray & operator=(
-- 
2.43.0


From 62bdf368ef0e8161778d427dc8722d67cfce0487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:06 +0000
Subject: [PATCH 16/30] fix: BitVec::append() read past an empty argument, kept
 stray bits and left an extra block

---
 src/BitVector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 276ec64..24b0429 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -290,14 +290,18 @@ public: /* Methods: */
                 m_blocks.push_back (*i);
             }
         }
-        else {
+        else if (i != e) {
             assert (! empty ());
             assert (! m_blocks.empty ());
-            m_blocks.back () |= (*i << r);
+            const size_type n = compute_block_count (m_num_bits + other.m_num_bits);
+            block_type& last = m_blocks.back ();
+            last &= bit_mask (m_num_bits) - 1; /* clear the excess bits */
+            last |= (*i << r);
             do {
                 const block_type b = *i >> (bits_per_block() - r);
                 ++ i;
-                m_blocks.push_back (b | (i == e ? 0 : *i << r));
+                if (m_blocks.size () < n)
+                    m_blocks.push_back (b | (i == e ? 0 : *i << r));
             } while (i != e);
         }
 
-- 
2.43.0


From 83ad6a41a8c6e0616ac70cbfc26e6b98bc3e88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:06 +0000
Subject: [PATCH 17/30] fix: BitVec::clear_and_release() kept the number of
 bits

---
 src/BitVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 24b0429..498af5c 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -372,7 +372,10 @@ public: /* Methods: */
     friend bool operator == (const BitVec<B, A, S>& x,
                              const BitVec<B, A, S>& y);
 
-    void clear_and_release() { store_type().swap (m_blocks); }
+    void clear_and_release() {
+        store_type().swap (m_blocks);
+        m_num_bits = 0;
+    }
 
     void* data () { return static_cast<void*>(m_blocks.data ()); }
     const void* data () const { return static_cast<const void*>(m_blocks.data ()); }
-- 
2.43.0


From 56e2766f70e7eda77c7478750b66e75e8cdde3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:06 +0000
Subject: [PATCH 18/30] fix: BitVec operators &, ^ and | did not compile

---
 src/BitVector.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 498af5c..e3e4dcb 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -447,20 +447,26 @@ private: /* Fields: */
 
 template <typename B, typename A, typename S>
 BitVec<B, A, S> operator & (const BitVec<B, A, S>& x, const BitVec<B, A, S>& y) {
-    BitVec<B, A, S> result (x);
-    return (result &= y);
+    BitVec<B, A, S> result (x.size ());
+    result.assign (x);
+    result &= y;
+    return result;
 }
 
 template <typename B, typename A, typename S>
 BitVec<B, A, S> operator ^ (const BitVec<B, A, S>& x, const BitVec<B, A, S>& y) {
-    BitVec<B, A, S> result (x);
-    return (result ^= y);
+    BitVec<B, A, S> result (x.size ());
+    result.assign (x);
+    result ^= y;
+    return result;
 }
 
 template <typename B, typename A, typename S>
 BitVec<B, A, S> operator | (const BitVec<B, A, S>& x, const BitVec<B, A, S>& y) {
-    BitVec<B, A, S> result (x);
-    return (result |= y);
+    BitVec<B, A, S> result (x.size ());
+    result.assign (x);
+    result |= y;
+    return result;
 }
 
 template <typename B, typename A, typename S>
-- 
2.43.0


From 740f36ee34157f0d63af1a306194209de8055b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:34 +0000
Subject: [PATCH 19/30] fix: IdentifierPool::reserve() terminated instead of
 throwing

---
 src/IdentifierPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index e6513cd..10825b1 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -142,7 +142,7 @@ public: /* Types: */
 
     private: /* Methods: */
 
-        IdHolder(std::shared_ptr<State> state) noexcept
+        IdHolder(std::shared_ptr<State> state)
             : m_id(state->reserve())
             , m_state(std::move(state))
         {}
-- 
2.43.0


From 834739ea3827824fba7ca82daf831dc98825f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:34 +0000
Subject: [PATCH 20/30] fix: IdentifierPool IdHolder self-assignment recycled
 an identifier in use

---
 src/IdentifierPool.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 10825b1..eb4e0ea 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -116,10 +116,12 @@ public: /* Types: */
         {}
 
         IdHolder & operator=(IdHolder && move) noexcept {
-            if (m_state)
-                m_state->recycle(m_id);
-            m_id = move.m_id;
-            m_state = std::move(move.m_state);
+            if (this != &move) {
+                if (m_state)
+                    m_state->recycle(m_id);
+                m_id = move.m_id;
+                m_state = std::move(move.m_state);
+            }
             return *this;
         }
 
-- 
2.43.0


From 31fce5a663103d63e8d3ea17b1cb2bccecc005a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 21/30] fix: StrongTypeSwappable did not compile

---
 src/StrongType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StrongType.h b/src/StrongType.h
index bcbe70f..29e6b29 100644
--- a/src/StrongType.h
+++ b/src/StrongType.h
@@ -277,9 +277,11 @@ using StrongTypeStreamable = StrongTypeStreamableTo<std::ostream>;
 struct StrongTypeSwappable {
     template <typename T>
     struct impl {
-        friend void swap(T & a, T & b) noexcept(IsNothrowSwappable<T>::value) {
+        friend void swap(T & a, T & b)
+                noexcept(IsNothrowSwappable<typename T::ValueType>::value)
+        {
             using std::swap;
-            swap(a.value(), b.value());
+            swap(a.get(), b.get());
         }
     };
 };
-- 
2.43.0


From dd632b509acd94df10fcdefc2090d1fbcf1f545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 22/30] fix: SharedResourceMap terminated when the constructor
 of a resource threw

---
 src/SharedResourceMap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 577a57e..cc5cd69 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -57,7 +57,6 @@ private: /* Types: */
                   typename Constructor,
                   typename ... Args>
         ValueObj_(C && c, K && k, Constructor constructor, Args && ... args)
-                noexcept
             : container(std::forward<C>(c))
             , key(std::forward<K>(k))
             , realPtr(constructor(key, std::forward<Args>(args)...))
-- 
2.43.0


From b48579b4cfb18158ca3e5987b86d8b85909e3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 23/30] fix: IntrusiveUnorderedSharedItemSet leaked items it
 did not insert

---
 src/IntrusiveUnorderedSharedItemSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 2b703de..33a50eb 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -188,7 +188,8 @@ public: /* Methods: */
     {
         auto & item = *v;
         auto r(m_container.insert(item));
-        ItemTraits::putPtr(item, std::move(v));
+        if (r.second)
+            ItemTraits::putPtr(item, std::move(v));
         return r;
     }
 
-- 
2.43.0


From 4d74367e77f36e691901d3ceb319e1a25ddb7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 24/30] fix: EventLoop::run() did not continue when flushing
 emptied its pipe exactly

---
 src/EventLoop.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index ef4d0de..340aefa 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -328,12 +328,13 @@ public: /* Methods: */
                         auto const rd = ::read(m_closePipe.readEnd,
                                                events,
                                                DISCARD_SIZE);
-                        assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
                         if (rd <= 0) {
+                            assert(rd == 0 || rd == -1);
                             if (rd == 0 // HUP or EOF
-                                    || (static_cast<void>(assert(rd == -1)),
-                                        (errno != EAGAIN) && (errno != EINTR)))
+                                    || ((errno != EAGAIN) && (errno != EINTR)))
                                 return; // Error or stop signalled
+                            if (errno == EAGAIN) // Pipe is empty
+                                goto Sharemind_EventLoop_run_continue;
                         } else if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
                         { goto Sharemind_EventLoop_run_continue; }
                     }
-- 
2.43.0


From b3d501a8fa80fcb5a2b7a7f4b5256b901e9bedd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 25/30] fix: CRefVec of a RefVec did not compile

---
 src/ReferenceVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReferenceVector.h b/src/ReferenceVector.h
index cd4fa88..13ab7dc 100644
--- a/src/ReferenceVector.h
+++ b/src/ReferenceVector.h
@@ -142,7 +142,7 @@ public: /* Methods: */
     { }
 
     explicit CRefVec(RefVec<T> const & immvec)
-        : Base(immvec)
+        : Base(immvec.begin(), immvec.size())
     {}
 
     using Base::empty;
-- 
2.43.0


From c599e68fddcc0dbb03c4e96768425e0954cec5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 26/30] fix: Promise move assignment left the future of the
 replaced promise pending forever

---
 src/Future.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index b506507..76bde96 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -407,7 +407,11 @@ template <typename T> class PackagedTask;
             , m_futureState(m_state) \
         {} \
         Promise(Promise &&) noexcept = default; \
-        Promise & operator=(Promise &&) noexcept = default; \
+        Promise & operator=(Promise && move) noexcept { \
+            Promise tmp(std::move(move)); \
+            swap(tmp); \
+            return *this; \
+        } \
         ~Promise() noexcept { \
             if (m_state) \
                 m_state->setException( \
-- 
2.43.0


From d4e3b4f05ff4d53b31828ef31f12af0c681912db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 27/30] fix: Future values were never destroyed

---
 src/Future.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Future.h b/src/Future.h
index 76bde96..88cbf58 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -125,6 +125,11 @@ struct SharedState {
 
 /* Methods: */
 
+    ~SharedState() noexcept {
+        if (isSet && !exception)
+            reinterpret_cast<T *>(&m_data)->~T();
+    }
+
     template <typename ... Args>
     void emplaceValue(Args && ... args)
             noexcept(noexcept(T(std::forward<Args>(args)...)))
-- 
2.43.0


From 3988c866d92e81e6dc2ea9261a9d6cfb8bf7d3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 28/30] fix: Promise terminated when constructing its value
 threw

---
 src/Future.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 88cbf58..3b9e846 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -135,7 +135,7 @@ struct SharedState {
             noexcept(noexcept(T(std::forward<Args>(args)...)))
     {
         if (auto const continuation =
-                [this](Args && ... args_) noexcept -> ContinuationPtr {
+                [this](Args && ... args_) -> ContinuationPtr {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
@@ -475,8 +475,13 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        return SharedStatePtr(std::move(m_state))->emplaceValue(
-                        std::forward<Args>(args)...);
+        SharedStatePtr state(std::move(m_state));
+        try {
+            state->emplaceValue(std::forward<Args>(args)...);
+        } catch (...) {
+            m_state = std::move(state);
+            throw;
+        }
     }
 
     void setValue(T && v)
-- 
2.43.0


From 75ac8d0107be162191687ff0a14e8dfa11cf8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 29/30] fix: PackagedTask reset(), constructor noexcept and
 void result

---
 src/Future.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 3b9e846..68fc5fc 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -565,9 +565,8 @@ public: /* Methods: */
 
     template <typename F>
     PackagedTask(F && f)
-            noexcept(noexcept(std::is_nothrow_constructible<
-                                    decltype(PackagedTask::m_function),
-                                    decltype(std::forward<F>(f))>::value))
+            noexcept(std::is_nothrow_default_constructible<Promise<R> >::value
+                     && std::is_nothrow_constructible<Function, F &&>::value)
         : m_function(std::forward<F>(f))
     {}
 
@@ -593,7 +592,7 @@ public: /* Methods: */
     template <typename ... Args>
     void operator()(Args && ... args) noexcept {
         try {
-            m_promise.setValue(m_function(std::forward<Args>(args)...));
+            run(std::is_void<R>(), std::forward<Args>(args)...);
         } catch (...) {
             m_promise.setException(std::current_exception());
         }
@@ -603,7 +602,10 @@ public: /* Methods: */
 
     bool isValid() const noexcept { return m_promise.isValid(); }
 
-    void reset() { swap(PackagedTask(std::move(m_function))); }
+    void reset() {
+        PackagedTask tmp(std::move(m_function));
+        swap(tmp);
+    }
 
     void swap(PackagedTask & other) noexcept {
         m_promise.swap(other.m_promise);
@@ -613,6 +615,18 @@ public: /* Methods: */
 
 private: /* Methods: */
 
+    template <typename ... Args>
+    void run(std::false_type, Args && ... args)
+    { m_promise.setValue(m_function(std::forward<Args>(args)...)); }
+
+    template <typename ... Args>
+    void run(std::true_type, Args && ... args) {
+        m_function(std::forward<Args>(args)...);
+        m_promise.setReady();
+    }
+
+private: /* Fields: */
+
     Promise<R> m_promise;
     Function m_function;
 
-- 
2.43.0


From 685453523e6032b236ca6eba408aa2e4d7bfd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:57 +0000
Subject: [PATCH 30/30] fix: avoid a warning in Promise::emplaceValue()

---
 src/Future.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 68fc5fc..8ee23d1 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -475,13 +475,17 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        SharedStatePtr state(std::move(m_state));
-        try {
-            state->emplaceValue(std::forward<Args>(args)...);
-        } catch (...) {
-            m_state = std::move(state);
-            throw;
-        }
+        struct Guard {
+            ~Guard() noexcept {
+                if (!success)
+                    source = std::move(state);
+            }
+            SharedStatePtr & source;
+            SharedStatePtr state;
+            bool success;
+        } guard{m_state, std::move(m_state), false};
+        guard.state->emplaceValue(std::forward<Args>(args)...);
+        guard.success = true;
     }
 
     void setValue(T && v)
-- 
2.43.0

