From 0b7bcd927ef78cc80f90eb31ed51722ea2846cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 01/19] fix: include every standard header seq.hpp uses

---
 include/boost/segmented_tree/seq.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 06ea217..76648ce 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -9,9 +9,16 @@
 
 #include <algorithm>
 #include <array>
+#include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <functional>
+#include <initializer_list>
+#include <iterator>
 #include <limits>
+#include <memory>
+#include <new>
+#include <stdexcept>
 #include <type_traits>
 #include <utility>
 
-- 
2.43.0


From 27102d212fede138e3294ecec70bb840cdc50288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 02/19] fix: before_segment(count) moves count elements before
 the previous segment's last

---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 76648ce..ee33b36 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -702,8 +702,8 @@ struct static_traits_t {
   }
 
   static void move_before_segment_count(iterator_data& it, size_type count) {
-    it.pos -= it.entry.segment.index + 1 - count;
-    move_prev_leaf_count(it.entry, count);
+    it.pos -= it.entry.segment.index + 1 + count;
+    move_prev_leaf_count(it.entry, count + 1);
   }
 };
 }
-- 
2.43.0


From 051c33d25114b70a3ff72b29fbff71e5893645af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 03/19] fix: splice of a single element moves it instead of
 copying it

---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index ee33b36..dc4ed9a 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3507,7 +3507,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
-    insert(pos, std::move(*it));
+    insert(pos, std::move(*iterator{it.it_}));
     other.erase(it);
   }
 
-- 
2.43.0


From 8854412ae8bbdc6985915d663dc5a42ad728239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 04/19] fix: do not let an element type constructible from the
 allocator hijack the delegating constructors

---
 include/boost/segmented_tree/seq.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index dc4ed9a..cf4fbee 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2338,7 +2338,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is count.
   seq(size_type count, T const& value, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_count(find_end(), count, value);
   }
 
@@ -2349,7 +2349,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is count.
   explicit seq(size_type count, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_count(find_end(), count);
   }
 
@@ -2362,7 +2362,7 @@ class seq {
   template <class InputIt,
             typename = typename std::iterator_traits<InputIt>::pointer>
   seq(InputIt first, InputIt last, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_range(find_end(), first, last);
   }
 
@@ -2372,8 +2372,8 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is other.size().
   seq(seq const& other)
-      : seq{element_traits::select_on_container_copy_construction(
-            other.get_element_allocator())} {
+      : seq(element_traits::select_on_container_copy_construction(
+            other.get_element_allocator())) {
     emplace_range(find_end(), other.begin(), other.end());
   }
 
@@ -2382,7 +2382,7 @@ class seq {
   ///
   /// \par Complexity
   ///   NlogN, where N is other.size().
-  seq(seq const& other, Allocator const& alloc) : seq{alloc} {
+  seq(seq const& other, Allocator const& alloc) : seq(alloc) {
     emplace_range(find_end(), other.begin(), other.end());
   }
 
@@ -2407,7 +2407,7 @@ class seq {
   /// \par Complexity
   ///   Constant if alloc compares equal to other's allocator. NlogN, where N is
   ///   other.size() otherwise.
-  seq(seq&& other, Allocator const& alloc) : seq{alloc} {
+  seq(seq&& other, Allocator const& alloc) : seq(alloc) {
     if (get_element_allocator() == other.get_element_allocator())
       steal(other);
     else
@@ -2422,7 +2422,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is init.size().
   seq(std::initializer_list<T> init, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_range(find_end(), init.begin(), init.end());
   }
 
-- 
2.43.0


From 4b9e512dbd77a52d09ff2175a9c9452792519337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 05/19] fix: do not pass a null pointer to the allocator when
 an empty sequence is purged

---
 include/boost/segmented_tree/seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index cf4fbee..4137fa3 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1270,6 +1270,7 @@ class seq {
   }
 
   void purge_root(void_pointer pointer, size_type sz, size_type ht) {
+    if (ht == 0) return;
     if (ht < 2)
       purge_segment(static_traits::cast_segment(pointer), sz);
     else
-- 
2.43.0


From 18e11ea034678444c55904d51542768eba264b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 06/19] fix: inserting count copies of an element of the
 sequence itself

---
 include/boost/segmented_tree/seq.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 4137fa3..5abada4 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3128,7 +3128,9 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   iterator insert(const_iterator pos, size_type count, T const& value) {
-    return emplace_count(pos.it_, count, value);
+    // value may refer to an element that the insertion moves.
+    value_type const copy(value);
+    return emplace_count(pos.it_, count, copy);
   }
 
   /// \par Effects
@@ -3367,7 +3369,10 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void resize(size_type count, value_type const& value) {
-    resize_count(count, value);
+    if (count > size())
+      insert(end(), count - size(), value);
+    else
+      erase(nth(count), end());
   }
 
   /// \par Effects
-- 
2.43.0


From ecac350cb74bcaea3924ec3e5fbe58e44a718335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 07/19] fix: removing a value that is an element of the
 sequence itself

---
 include/boost/segmented_tree/seq.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 5abada4..d2b5e3c 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3582,7 +3582,20 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void remove(const T& value) {
-    erase(std::remove(begin(), end(), value), end());
+    // value may refer to an element of *this, which must then stay in place
+    // until every other element has been compared with it.
+    auto const self = std::find_if(begin(), end(), [&](T const& element) {
+      return std::addressof(element) == std::addressof(value);
+    });
+    if (self == end()) {
+      erase(std::remove(begin(), end(), value), end());
+      return;
+    }
+    auto const self_last = index_of(self) + (*self == value ? 1 : 0);
+    auto const last = std::remove(self + 1, end(), value);
+    auto const first = index_of(std::remove(begin(), self, value));
+    erase(last, end());
+    erase(nth(first), nth(self_last));
   }
 
   /// \par Effects
-- 
2.43.0


From 2d4fc8716441615746c0f59291b36a2e79691315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 08/19] fix: limit index nodes to the number of children their
 length field can hold

---
 include/boost/segmented_tree/seq.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index d2b5e3c..4003d9d 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -108,8 +108,12 @@ struct static_traits_t {
     return segment_free() / sizeof(T);
   }
 
+  // A node's length and parent index are stored as std::uint16_t.
   static constexpr std::size_t base_fit() {
-    return base_free() / sizeof(node_data);
+    return base_free() / sizeof(node_data) <
+                   (std::numeric_limits<std::uint16_t>::max)()
+               ? base_free() / sizeof(node_data)
+               : (std::numeric_limits<std::uint16_t>::max)();
   }
 
   static constexpr std::size_t segment_max() {
-- 
2.43.0


From f889a50f0ecada4c19074626656cdc1ea02e01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 09/19] fix: a resize that throws leaves the sequence as it was

---
 include/boost/segmented_tree/seq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 4003d9d..aa8f4f2 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2232,8 +2232,14 @@ class seq {
     auto last = find_end();
     if (count < sz)
       erase_range(find_index(count), last);
-    else
-      emplace_count(last, count - sz, std::forward<Args>(args)...);
+    else {
+      try {
+        emplace_count(last, count - sz, std::forward<Args>(args)...);
+      } catch (...) {
+        if (size() != sz) erase_range(find_index(sz), find_end());
+        throw;
+      }
+    }
   }
 
   void copy_assign_alloc(seq const& other) {
-- 
2.43.0


From 73259202a3f5a5dd13dcb44ea5b75c47e2b18f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 10/19] fix: a first insertion whose construction throws leaves
 the sequence empty

---
 include/boost/segmented_tree/seq.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index aa8f4f2..c1b357e 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1634,10 +1634,15 @@ class seq {
 
     if (pointer == nullptr) {
       auto alloc = allocate_segment();
+      try {
+        construct_segment(alloc, 0, std::move(value));
+      } catch (...) {
+        deallocate_segment(alloc);
+        throw;
+      }
       get_root() = alloc;
       get_size() = 1;
       get_height() = 1;
-      construct_segment(alloc, 0, std::move(value));
       entry.segment.pointer = alloc;
       entry.segment.length = 1;
       return;
-- 
2.43.0


From 0436649ad4ff056ea131400d62147a9c187e8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 11/19] fix: inserting an rvalue leaves it as it was when the
 insertion throws

---
 include/boost/segmented_tree/seq.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index c1b357e..60b5404 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1612,11 +1612,11 @@ class seq {
   }
 
   //   insert_single
-  void insert_single_iterator(iterator_data& it, value_type value) {
+  void insert_single_iterator(iterator_data& it, value_type&& value) {
     insert_single_segment(it.entry, std::move(value));
   }
 
-  void insert_single_segment(iterator_entry& entry, value_type value) {
+  void insert_single_segment(iterator_entry& entry, value_type&& value) {
     auto pointer = entry.segment.pointer;
     auto index = entry.segment.index;
     auto length = entry.segment.length;
@@ -2149,6 +2149,18 @@ class seq {
     return it;
   }
 
+  // As emplace_single, but gives value back to the caller on failure.
+  iterator_data move_single(iterator_data it, value_type& value) {
+    value_type temp(std::move(value));
+    try {
+      insert_single_iterator(it, std::move(temp));
+    } catch (...) {
+      value = std::move(temp);
+      throw;
+    }
+    return it;
+  }
+
   template <typename... Args>
   iterator_data emplace_count(iterator_data it, size_type count,
                               Args&&... args) {
@@ -3124,7 +3136,7 @@ class seq {
   /// \par Exception safety
   ///   Strong.
   iterator insert(const_iterator pos, T&& value) {
-    return emplace_single(pos.it_, std::move(value));
+    return move_single(pos.it_, value);
   }
 
   /// \par Effects
@@ -3269,7 +3281,7 @@ class seq {
   ///
   /// \par Exception safety
   ///   Strong.
-  void push_back(T&& value) { emplace_back(std::move(value)); }
+  void push_back(T&& value) { move_single(find_end(), value); }
 
   /// \par Effects
   ///   Forward constructs an element at end().
@@ -3324,7 +3336,7 @@ class seq {
   ///
   /// \par Exception safety
   ///   Strong.
-  void push_front(T&& value) { emplace_front(std::move(value)); }
+  void push_front(T&& value) { move_single(find_first(), value); }
 
   /// \par Effects
   ///   Forward constructs an element at begin().
-- 
2.43.0


From c8fa0e1f1261f53db73ac8941732b49e55e9c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 12/19] fix: destroy every element through an allocator that
 defines destroy

---
 include/boost/segmented_tree/seq.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 60b5404..4e0a1ef 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -61,6 +61,21 @@ struct is_alloc_move_construct_default {
       decltype(test<Alloc>(std::declval<Alloc>()))::value;
 };
 
+template <typename T, typename Alloc>
+struct is_alloc_destroy_default {
+ private:
+  template <typename U>
+  static auto test(U alloc)
+      -> decltype(alloc.destroy(std::declval<T*>()), std::false_type{});
+  template <typename>
+  static std::true_type test(...);
+
+ public:
+  static bool constexpr value =
+      std::is_same<Alloc, std::allocator<T>>::value ||
+      decltype(test<Alloc>(std::declval<Alloc>()))::value;
+};
+
 template <typename T, typename VoidPointer, typename SizeType,
           std::size_t segment_target, std::size_t base_target>
 struct static_traits_t {
@@ -1252,8 +1267,10 @@ class seq {
   void purge_segment(element_pointer pointer, size_type sz) {
     purge_segment(
         pointer, sz,
-        std::integral_constant<bool,
-                               std::is_trivially_destructible<T>::value>{});
+        std::integral_constant<
+            bool, std::is_trivially_destructible<T>::value &&
+                      detail::is_alloc_destroy_default<
+                          value_type, allocator_type>::value>{});
     deallocate_segment(pointer);
   }
 
@@ -1405,6 +1422,8 @@ class seq {
         source, source_index, dest, dest_index, count,
         std::integral_constant < bool,
         std::is_trivially_copyable<T>::value &&
+            detail::is_alloc_destroy_default<value_type,
+                                             allocator_type>::value &&
             (std::is_same<allocator_type, std::allocator<value_type>>::value ||
              detail::is_alloc_move_construct_default<value_type,
                                                      allocator_type>::value) >
-- 
2.43.0


From 66facba492c24caf5929f706b59ec1efd449f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 13/19] fix: compare and subtract iterators and const_iterators
 in either order

---
 include/boost/segmented_tree/seq.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 4e0a1ef..4c8134c 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -946,7 +946,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  difference_type operator-(iterator_t const& other) const {
+  template <typename P, typename R>
+  difference_type operator-(iterator_t<static_traits, P, R> const& other) const {
     return static_traits::difference(it_, other.it_);
   }
 
@@ -1078,7 +1079,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator!=(iterator_t const& other) const {
+  template <typename P, typename R>
+  bool operator!=(iterator_t<static_traits, P, R> const& other) const {
     return it_.pos != other.it_.pos;
   }
 
@@ -1087,7 +1089,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator==(iterator_t const& other) const {
+  template <typename P, typename R>
+  bool operator==(iterator_t<static_traits, P, R> const& other) const {
     return it_.pos == other.it_.pos;
   }
 
@@ -1096,7 +1099,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator<(iterator_t const& other) const {
+  template <typename P, typename R>
+  bool operator<(iterator_t<static_traits, P, R> const& other) const {
     return it_.pos < other.it_.pos;
   }
 
@@ -1105,7 +1109,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator>(iterator_t const& other) const {
+  template <typename P, typename R>
+  bool operator>(iterator_t<static_traits, P, R> const& other) const {
     return it_.pos > other.it_.pos;
   }
 
@@ -1115,7 +1120,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator<=(iterator_t const& other) const {
+  template <typename P, typename R>
+  bool operator<=(iterator_t<static_traits, P, R> const& other) const {
     return it_.pos <= other.it_.pos;
   }
 
@@ -1125,7 +1131,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator>=(iterator_t const& other) const {
+  template <typename P, typename R>
+  bool operator>=(iterator_t<static_traits, P, R> const& other) const {
     return it_.pos >= other.it_.pos;
   }
 
-- 
2.43.0


From c3c8e96be14b6eddb0e67a44b688053fab613ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 14/19] fix: a throwing element move while an insertion shifts
 elements leaks no element

---
 include/boost/segmented_tree/seq.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 4c8134c..d2b9364 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1651,8 +1651,13 @@ class seq {
 
     if (index != length && length != static_traits::segment_max()) {
       move_segment(pointer, length - 1, pointer, length);
-      assign_forward_segment(pointer, length - 1, index, 1);
-      assign_segment(pointer, index, std::move(value));
+      try {
+        assign_forward_segment(pointer, length - 1, index, 1);
+        assign_segment(pointer, index, std::move(value));
+      } catch (...) {
+        destroy_segment(pointer, length);
+        throw;
+      }
       ++entry.segment.length;
       increment_sizes(parent_pointer, parent_index);
       return;
-- 
2.43.0


From e14050856193c264a67c42375e81f66226588537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 15/19] fix: a throwing element move while a segment splits or
 merges keeps every element and block accounted for

---
 include/boost/segmented_tree/seq.hpp | 99 +++++++++++++++++++---------
 1 file changed, 67 insertions(+), 32 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index d2b9364..c87179f 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1398,6 +1398,12 @@ class seq {
     return child_sz;
   }
 
+  // destroy_range
+  void destroy_range_segment(element_pointer pointer, size_type first,
+                             size_type last) {
+    while (first != last) destroy_segment(pointer, first++);
+  }
+
   // construct_range
   void construct_range_segment(element_pointer source, size_type source_index,
                                element_pointer dest, size_type dest_index,
@@ -1413,14 +1419,19 @@ class seq {
     auto last = source_index + count;
     auto to = dest_index;
 
-    while (from != last) {
-      construct_segment(dest, to, std::move(source[from]));
-      destroy_segment(source, from);
-      ++from;
-      ++to;
+    try {
+      while (from != last) {
+        construct_segment(dest, to, std::move(source[from]));
+        ++from;
+        ++to;
+      }
+    } catch (...) {
+      destroy_range_segment(dest, dest_index, to);
+      throw;
     }
   }
 
+  // The source elements stay alive, moved from, for the caller to destroy.
   size_type construct_range_segment(element_pointer source,
                                     size_type source_index,
                                     element_pointer dest, size_type dest_index,
@@ -1627,16 +1638,19 @@ class seq {
       }
     } catch (...) {
       deallocate_segment(segment_alloc);
-
-      while (alloc != nullptr) {
-        auto temp = alloc->parent_pointer;
-        deallocate_node(alloc);
-        alloc = temp;
-      }
+      deallocate_nodes_single(alloc);
       throw;
     }
   }
 
+  void deallocate_nodes_single(node_pointer alloc) {
+    while (alloc != nullptr) {
+      auto temp = alloc->parent_pointer;
+      deallocate_node(alloc);
+      alloc = temp;
+    }
+  }
+
   //   insert_single
   void insert_single_iterator(iterator_data& it, value_type&& value) {
     insert_single_segment(it.entry, std::move(value));
@@ -1693,22 +1707,35 @@ class seq {
     constexpr auto pointer_length = sum / 2;
     constexpr auto alloc_length = sum - pointer_length;
 
-    if (index < pointer_length) {
-      auto left_index = pointer_length - 1;
-      move_segment(pointer, left_index, alloc, 0);
-      construct_range_segment(pointer, left_index + 1, alloc, 1,
-                              alloc_length - 1);
-      assign_forward_segment(pointer, left_index, index, 1);
-      assign_segment(pointer, index, std::move(value));
+    size_type built = 0;
+    try {
+      if (index < pointer_length) {
+        auto left_index = pointer_length - 1;
+        built += construct_range_segment(pointer, left_index, alloc, 0,
+                                         alloc_length);
+        assign_forward_segment(pointer, left_index, index, 1);
+        assign_segment(pointer, index, std::move(value));
+      } else {
+        auto new_index = index - pointer_length;
+        auto move_length = length - index;
+        built += construct_range_segment(pointer, pointer_length, alloc, 0,
+                                         new_index);
+        built += construct_segment(alloc, new_index, std::move(value));
+        built += construct_range_segment(pointer, index, alloc, new_index + 1,
+                                         move_length);
+      }
+    } catch (...) {
+      destroy_range_segment(alloc, 0, built);
+      deallocate_segment(alloc);
+      deallocate_nodes_single(leaf_alloc);
+      throw;
+    }
+    destroy_range_segment(pointer, pointer_length, length);
 
+    if (index < pointer_length)
       entry.segment.length = pointer_length;
-    } else {
+    else {
       auto new_index = index - pointer_length;
-      auto move_length = length - index;
-      construct_range_segment(pointer, pointer_length, alloc, 0, new_index);
-      construct_range_segment(pointer, index, alloc, new_index + 1,
-                              move_length);
-      construct_segment(alloc, new_index, std::move(value));
       entry.segment.length = alloc_length;
       entry.segment.pointer = alloc;
       entry.segment.index = new_index;
@@ -1910,10 +1937,14 @@ class seq {
       }
 
       construct_range_segment(pointer, 0, prev_pointer, prev_length, index);
-      construct_range_segment(pointer, index + 1, prev_pointer,
-                              prev_length + index, length - index);
-      destroy_segment(pointer, index);
-      deallocate_segment(pointer);
+      try {
+        construct_range_segment(pointer, index + 1, prev_pointer,
+                                prev_length + index, length - index);
+      } catch (...) {
+        destroy_range_segment(prev_pointer, prev_length, prev_length + index);
+        throw;
+      }
+      purge_segment(pointer, length + 1);
       sizes[prev_index] = merge_size;
       erase_index = parent_index;
       entry.segment.pointer = prev_pointer;
@@ -1939,12 +1970,16 @@ class seq {
         return;
       }
 
-      assign_backward_segment(pointer, length, index, 1);
-      move_assign_segment(next_pointer, 0, pointer, length);
-      destroy_segment(next_pointer, 0);
       construct_range_segment(next_pointer, 1, pointer, length + 1,
                               next_length - 1);
-      deallocate_segment(next_pointer);
+      try {
+        assign_backward_segment(pointer, length, index, 1);
+        move_assign_segment(next_pointer, 0, pointer, length);
+      } catch (...) {
+        destroy_range_segment(pointer, length + 1, length + next_length);
+        throw;
+      }
+      purge_segment(next_pointer, next_length);
 
       sizes[parent_index] = merge_size;
       erase_index = next_index;
-- 
2.43.0


From 9cf0d5070884b670cf8d096709e8b86945ca0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 16/19] fix: splicing an element or a range of a sequence
 within that sequence

---
 include/boost/segmented_tree/seq.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index c87179f..623c904 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3606,8 +3606,11 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
+    // Inserting into *this moves the element when other is *this.
+    auto index = other.index_of(it);
+    if (this == std::addressof(other) && index_of(pos) <= index) ++index;
     insert(pos, std::move(*iterator{it.it_}));
-    other.erase(it);
+    other.erase(other.nth(index));
   }
 
   /// \par Effects
@@ -3640,6 +3643,14 @@ class seq {
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator first,
               const_iterator last) {
+    if (this == std::addressof(other)) {
+      auto index = index_of(pos);
+      if (index >= index_of(last)) index -= index_of(last) - index_of(first);
+      seq range{get_allocator()};
+      range.splice(range.end(), *this, first, last);
+      splice(nth(index), range);
+      return;
+    }
     insert(pos, std::make_move_iterator(iterator{first.it_}),
            std::make_move_iterator(iterator{last.it_}));
     other.erase(first, last);
-- 
2.43.0


From 41d8f6d2e67d35f4332ce1384f2f05459ae18055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 17/19] fix: merging a sequence into itself leaves it as it was

---
 include/boost/segmented_tree/seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 623c904..566b9c2 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3538,6 +3538,7 @@ class seq {
   ///   Basic.
   template <class Compare>
   void merge(seq& other, Compare comp) {
+    if (this == std::addressof(other)) return;
     auto sz = size();
     splice(end(), other, other.begin(), other.end());
     std::inplace_merge(begin(), nth(sz), end(), comp);
-- 
2.43.0


From 2d28775e689286bbbb1180502ea5faebc1cab740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 18/19] fix: begin and end the lifetime of every class-type
 pointer stored in index nodes

---
 include/boost/segmented_tree/seq.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 566b9c2..1ff13ae 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1239,7 +1239,10 @@ class seq {
   }
 
   node_pointer allocate_node() {
-    return node_traits::allocate(get_node_allocator(), 1);
+    auto pointer = node_traits::allocate(get_node_allocator(), 1);
+    ::new (static_cast<void*>(std::addressof(pointer->parent_pointer)))
+        node_pointer(nullptr);
+    return pointer;
   }
 
   // destroy
@@ -1259,6 +1262,7 @@ class seq {
   }
 
   void deallocate_node(node_pointer pointer) {
+    pointer->parent_pointer.~node_pointer();
     node_traits::deallocate(get_node_allocator(), pointer, 1);
   }
 
@@ -1458,7 +1462,8 @@ class seq {
     auto to = dest_index;
 
     while (from != last) {
-      copy_size += move_assign_leaf(source, from, dest, to);
+      copy_size += move_leaf(source, from, dest, to);
+      destroy_node(source, from);
       ++from;
       ++to;
     }
@@ -1475,7 +1480,8 @@ class seq {
     auto to = dest_index;
 
     while (from != last) {
-      copy_size += move_assign_branch(source, from, dest, to);
+      copy_size += move_branch(source, from, dest, to);
+      destroy_node(source, from);
       ++from;
       ++to;
     }
-- 
2.43.0


From 69433e11011a2384f32d84de8fcd435a2f409937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 19/19] fix: do not let an element type constructible from the
 allocator hijack a splice within one sequence

---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 1ff13ae..564d955 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3653,7 +3653,7 @@ class seq {
     if (this == std::addressof(other)) {
       auto index = index_of(pos);
       if (index >= index_of(last)) index -= index_of(last) - index_of(first);
-      seq range{get_allocator()};
+      seq range(get_allocator());
       range.splice(range.end(), *this, first, last);
       splice(nth(index), range);
       return;
-- 
2.43.0

