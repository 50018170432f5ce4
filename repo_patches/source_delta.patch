From a9f14a9294138f70b607fa75dd33ab9dc17ce163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:19 +0000
Subject: [PATCH 01/48] fix: FixedSet reverse iteration must stop after the
 smallest element

---
 include/fixed_containers/fixed_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 552d985..a0fb91d 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -183,7 +183,7 @@ public:
     }
     [[nodiscard]] constexpr const_reverse_iterator crend() const noexcept
     {
-        return create_const_reverse_iterator(0);
+        return create_const_reverse_iterator(tree().index_of_min_at());
     }
     [[nodiscard]] constexpr const_reverse_iterator rbegin() const noexcept { return crbegin(); }
     [[nodiscard]] constexpr const_reverse_iterator rend() const noexcept { return crend(); }
-- 
2.43.0


From 8143b8b0bffb8e40c2ce43540fb48365c22af343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:19 +0000
Subject: [PATCH 02/48] fix: converting a reverse iterator to its const flavor
 must not advance it

---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 180181d..097714f 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -87,7 +87,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr BidirectionalIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : BidirectionalIterator{other.reference_provider_}
+      : reference_provider_{other.reference_provider_}
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 8adf210..9df9bcf 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -89,7 +89,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr RandomAccessIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : RandomAccessIterator{other.reference_provider_}
+      : reference_provider_{other.reference_provider_}
     {
     }
 
-- 
2.43.0


From b58fc74ac6f0076c778f34a3d4cc3b5e14923012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:04 +0000
Subject: [PATCH 03/48] fix: FixedVector and FixedDeque insert/emplace must
 support arguments that refer to own elements

---
 include/fixed_containers/fixed_deque.hpp  | 7 +++++--
 include/fixed_containers/fixed_vector.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index cc1d09f..1fd0830 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -324,8 +324,9 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        value_type entry(value);  // `value` may refer to an element that is about to be shifted
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
     constexpr iterator insert(
@@ -361,8 +362,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` may refer to elements that are about to be shifted
+        value_type entry(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index ef4ba81..9a4d967 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -294,8 +294,9 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        value_type entry(value);  // `value` may refer to an element that is about to be shifted
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
     constexpr iterator insert(
@@ -335,8 +336,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` may refer to elements that are about to be shifted
+        value_type entry(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
 
-- 
2.43.0


From 1d96b86073285b07f1733872bb8226e640023ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:56 +0000
Subject: [PATCH 04/48] fix: FixedCircularDeque single-entry insert/emplace at
 the front of a full container

---
 include/fixed_containers/fixed_circular_deque.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 1aaa04d..5cd00ac 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -154,14 +154,19 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        return deque().insert(pos, value, loc);
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
         value_type&& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        // Treat non-end `pos` as an uncrossable barrier: nothing can be evicted to make space, so
+        // drop the incoming entry.
+        if (is_full(deque()) && pos == cbegin() && pos != cend())
+        {
+            return begin();
+        }
         pop_front_if_full(loc);
         return deque().insert(pos, std::move(value), loc);
     }
@@ -187,8 +192,8 @@ public:
     template <class... Args>
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
-        pop_front_if_full(std_transition::source_location::current());
-        return deque().emplace(pos, std::forward<Args>(args)...);
+        value_type entry(std::forward<Args>(args)...);
+        return insert(pos, std::move(entry));
     }
 
     constexpr void assign(
-- 
2.43.0


From 59fa1f74fbb4c08f82e03f165f469f2083094194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:07 +0000
Subject: [PATCH 05/48] fix: FixedCircularDeque input-iterator insert at the
 front of a full container must not write past the end

---
 include/fixed_containers/fixed_circular_deque.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 5cd00ac..44efae0 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -423,6 +423,12 @@ private:
             deq.push_back(*first, loc);
         }
 
+        // Nothing was inserted, all the incoming elements are dropped.
+        if (middle_it == end())
+        {
+            return first_it;
+        }
+
         // If there are still more elements when we reach the barrier, overwrite the just-inserted
         // elements. This is analogous to dropping incoming elements in the std::input_iterator
         // overload
-- 
2.43.0


From 4bd65b403310a7e5f726754af77e37ab1b3b67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:18 +0000
Subject: [PATCH 06/48] fix: FixedCircularDeque push/emplace on a full
 container must support arguments that refer to the evicted entry

---
 .../fixed_containers/fixed_circular_deque.hpp | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 44efae0..fffedc1 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -97,8 +97,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        deque().push_back(value, loc);
+        // Copy before making space, `value` may refer to the entry that is about to be evicted
+        push_back(value_type(value), loc);
     }
     constexpr void push_back(
         value_type&& value,
@@ -111,6 +111,17 @@ public:
     template <class... Args>
     constexpr reference emplace_back(Args&&... args)
     {
+        if constexpr (MoveConstructible<value_type>)
+        {
+            // Construct before making space, `args` may refer to the entry that is about to be
+            // evicted
+            if (is_full(deque()))
+            {
+                value_type entry(std::forward<Args>(args)...);
+                deque().pop_front(std_transition::source_location::current());
+                return deque().emplace_back(std::move(entry));
+            }
+        }
         pop_front_if_full(std_transition::source_location::current());
         return deque().emplace_back(std::forward<Args>(args)...);
     }
@@ -125,8 +136,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_back_if_full(loc);
-        deque().push_front(value, loc);
+        // Copy before making space, `value` may refer to the entry that is about to be evicted
+        push_front(value_type(value), loc);
     }
     constexpr void push_front(
         value_type&& value,
@@ -139,6 +150,17 @@ public:
     template <class... Args>
     constexpr reference emplace_front(Args&&... args)
     {
+        if constexpr (MoveConstructible<value_type>)
+        {
+            // Construct before making space, `args` may refer to the entry that is about to be
+            // evicted
+            if (is_full(deque()))
+            {
+                value_type entry(std::forward<Args>(args)...);
+                deque().pop_back(std_transition::source_location::current());
+                return deque().emplace_front(std::move(entry));
+            }
+        }
         pop_back_if_full(std_transition::source_location::current());
         return deque().emplace_front(std::forward<Args>(args)...);
     }
-- 
2.43.0


From 018dc351d1a5d1e24a03835b698b0d009d188581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 07/48] fix: FixedList insert of an empty range must return the
 insertion position

---
 include/fixed_containers/fixed_list.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 7f93649..ce4cfa6 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -493,12 +493,12 @@ private:
         check_target_size(size() + entry_count_to_add, loc);
 
         const std::size_t insertion_point = index_of(pos);
-        std::size_t inserted_point = NULL_INDEX;  // First index returned during insertion
+        std::size_t inserted_point = insertion_point;  // First index returned during insertion
         for (; first != last; std::advance(first, 1))
         {
             const std::size_t new_inserted_point =
                 list().emplace_before_index_and_return_index(insertion_point, *first);
-            if (inserted_point == NULL_INDEX)
+            if (inserted_point == insertion_point)
             {
                 inserted_point = new_inserted_point;
             }
@@ -515,12 +515,12 @@ private:
                                        const std_transition::source_location& loc)
     {
         const std::size_t insertion_point = index_of(pos);
-        std::size_t inserted_point = NULL_INDEX;  // First index returned during insertion
+        std::size_t inserted_point = insertion_point;  // First index returned during insertion
         for (; first != last && size() < max_size(); std::advance(first, 1))
         {
             const std::size_t new_inserted_point =
                 list().emplace_before_index_and_return_index(insertion_point, *first);
-            if (inserted_point == NULL_INDEX)
+            if (inserted_point == insertion_point)
             {
                 inserted_point = new_inserted_point;
             }
-- 
2.43.0


From c990396c1236c02620d03fa2f5291bfb5aff5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:23 +0000
Subject: [PATCH 08/48] fix: FixedList remove must support a value that refers
 to own element

---
 include/fixed_containers/fixed_list.hpp | 31 ++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index ce4cfa6..657a475 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -371,7 +371,36 @@ public:
     }
     constexpr size_type remove(const T& value)
     {
-        return remove_if([&value](const T& entry) { return entry == value; });
+        // `value` may refer to an element of this list, so that element has to be removed last
+        std::size_t value_index = end_index();
+        size_type removed_counter = 0;
+
+        for (std::size_t i = front_index(); i != end_index();)
+        {
+            const T& entry = list().at(i);
+            if (std::addressof(entry) == std::addressof(value))
+            {
+                value_index = i;
+                i = list().next_of(i);
+            }
+            else if (entry == value)
+            {
+                i = list().delete_at_and_return_next_index(i);
+                ++removed_counter;
+            }
+            else
+            {
+                i = list().next_of(i);
+            }
+        }
+
+        if (value_index != end_index() && list().at(value_index) == value)
+        {
+            destroy_at(value_index);
+            ++removed_counter;
+        }
+
+        return removed_counter;
     }
 
     constexpr iterator erase(const_iterator first,
-- 
2.43.0


From 3b77025f0c1a8d57c7badd15d0b0734402593be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:34 +0000
Subject: [PATCH 09/48] fix: copying or moving an ordered map/set with
 non-trivial entries must carry the comparator over

---
 .../fixed_containers/fixed_red_black_tree.hpp  | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 125b7e8..3325435 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <functional>
+#include <type_traits>
 
 namespace fixed_containers::fixed_red_black_tree_detail
 {
@@ -896,7 +897,7 @@ public:
 
     // TODO: Use O(N) algorithm. Do non-recursive
     constexpr FixedRedBlackTree(const FixedRedBlackTree& other)
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -914,7 +915,7 @@ public:
         }
     }
     constexpr FixedRedBlackTree(FixedRedBlackTree&& other) noexcept
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -943,6 +944,7 @@ public:
         }
 
         this->clear();
+        this->assign_comparator(other);
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
@@ -967,6 +969,7 @@ public:
         }
 
         this->clear();
+        this->assign_comparator(other);
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
@@ -989,6 +992,17 @@ public:
         return *this;
     }
 
+private:
+    constexpr void assign_comparator(const FixedRedBlackTree& other)
+    {
+        if constexpr (std::is_copy_assignable_v<Compare>)
+        {
+            this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+                other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
+        }
+    }
+
+public:
     constexpr ~FixedRedBlackTree() noexcept { this->clear(); }
 };
 
-- 
2.43.0


From 9f25c65ad37662a55e057d62e14f316124353822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:34 +0000
Subject: [PATCH 10/48] fix: a moved-from FixedUnorderedMap/FixedUnorderedSet
 must stay usable

---
 .../fixed_robinhood_hashtable.hpp             | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_robinhood_hashtable.hpp b/include/fixed_containers/fixed_robinhood_hashtable.hpp
index 69094d9..40d9adb 100644
--- a/include/fixed_containers/fixed_robinhood_hashtable.hpp
+++ b/include/fixed_containers/fixed_robinhood_hashtable.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "fixed_containers/concepts.hpp"
 #include "fixed_containers/fixed_doubly_linked_list.hpp"
 #include "fixed_containers/map_entry.hpp"
 
@@ -357,7 +358,12 @@ public:
         return end_value_index;
     }
 
-    constexpr void clear() { erase_range(begin_index(), end_index()); }
+    constexpr void clear()
+    {
+        // Do not look up the entries by key: the keys of a moved-from table are unspecified
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_.clear();
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_ = {};
+    }
 
 public:
     constexpr FixedRobinhoodHashtable() = default;
@@ -386,7 +392,24 @@ public:
         requires(!IsReference<V>)
     = default;
 
-    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) = default;
+    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) noexcept
+        requires(!TriviallyMoveConstructible<PairType>)
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_))
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_(
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_)
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_))
+      , IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_(
+            std::move(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_))
+    {
+        // The non-trivial move constructor of the value storage clears the moved-out-of storage,
+        // the buckets must not keep pointing to it
+        other.clear();
+    }
+    constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other)
+        requires TriviallyMoveConstructible<PairType>
+    = default;
     constexpr FixedRobinhoodHashtable& operator=(const FixedRobinhoodHashtable& other) = default;
     constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other) = default;
 };
-- 
2.43.0


From 89e2cf7400330ca72754b2d997b30cc4556b33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:34 +0000
Subject: [PATCH 11/48] fix: FixedIndexBasedContiguousStorage must not
 move-construct the last entry from its destroyed self

---
 include/fixed_containers/fixed_index_based_storage.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index fb2bdfb..e2e9207 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -162,7 +162,7 @@ public:
     {
     }
 
-    [[nodiscard]] constexpr bool full() const noexcept { return nodes().full(); }
+    [[nodiscard]] constexpr bool full() const noexcept { return is_full(nodes()); }
 
     constexpr T& at(const std::size_t index) noexcept { return nodes().at(index); }
     [[nodiscard]] constexpr const T& at(const std::size_t index) const noexcept
@@ -179,8 +179,11 @@ public:
 
     constexpr std::size_t delete_at_and_return_repositioned_index(const std::size_t index) noexcept
     {
-        memory::destroy_at_address_of(nodes().at(index));
-        memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        if (index != nodes().size() - 1)
+        {
+            memory::destroy_at_address_of(nodes().at(index));
+            memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        }
         nodes().pop_back();
         return nodes().size();
     }
-- 
2.43.0


From d3ae79cddaa25d573be02a0d049462d31e222808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 12/48] fix: raw views of node-based containers must honor the
 padding of entries whose size is not a multiple of the index size

---
 .../fixed_doubly_linked_list_raw_view.hpp      | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
index c75e441..4c40c5f 100644
--- a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
@@ -66,7 +66,9 @@ public:
                                  std::size_t max_elem_count)
       : list_ptr_{static_cast<const std::byte*>(list_ptr)}
       // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big
-      , elem_size_bytes_{std::max(elem_size_bytes, sizeof(std::size_t))}
+      // and a multiple of the stricter alignment of the two
+      , elem_size_bytes_{align_up(std::max(elem_size_bytes, sizeof(std::size_t)),
+                                  std::max(elem_align_bytes, alignof(std::size_t)))}
       , elem_align_bytes_{std::max(elem_align_bytes, alignof(std::size_t))}
       , max_elem_count_{max_elem_count}
     {
@@ -89,12 +91,8 @@ public:
     {
         // the full PoolStorage will be aligned to the alignment of the element, which matters if it
         // aligns bigger than alignof(size_t)
-        std::size_t raw_size = (max_elem_count_ * elem_size_bytes_) + sizeof(std::size_t);
-        if (raw_size % elem_align_bytes_ != 0)
-        {
-            raw_size += elem_align_bytes_ - (raw_size % elem_align_bytes_);
-        }
-        return static_cast<std::ptrdiff_t>(raw_size);
+        const std::size_t raw_size = (max_elem_count_ * elem_size_bytes_) + sizeof(std::size_t);
+        return static_cast<std::ptrdiff_t>(align_up(raw_size, elem_align_bytes_));
     }
 
     [[nodiscard]] constexpr std::ptrdiff_t chain_size() const noexcept
@@ -127,5 +125,11 @@ public:
     {
         return *std::next(chain_start(), static_cast<std::ptrdiff_t>(index));
     }
+
+private:
+    static constexpr std::size_t align_up(const std::size_t size, const std::size_t alignment)
+    {
+        return ((size + alignment - 1) / alignment) * alignment;
+    }
 };
 }  // namespace fixed_containers::fixed_doubly_linked_list_detail
-- 
2.43.0


From 63620cb8f203e85eb3408a6c70d3ed4731bf984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 13/48] fix: FixedString operator+= with a character must
 compile

---
 include/fixed_containers/fixed_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 680b717..bc58e81 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -342,7 +342,8 @@ public:
 
     constexpr FixedString& operator+=(CharT character)
     {
-        return append(character, std_transition::source_location::current());
+        push_back(character, std_transition::source_location::current());
+        return *this;
     }
     constexpr FixedString& operator+=(const CharT* char_ptr)
     {
-- 
2.43.0


From 31fe5d41d23d536979ef880a798cb7e59368f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 14/48] fix: FixedString substr at the end of the string must
 yield an empty view

---
 include/fixed_containers/fixed_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index bc58e81..e1b66e0 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -604,7 +604,7 @@ public:
         const std_transition::source_location& loc =
             std_transition::source_location::current()) const
     {
-        if (preconditions::test(pos < length()))
+        if (preconditions::test(pos <= length()))
         {
             Checking::out_of_range(pos, length(), loc);
         }
-- 
2.43.0


From 31e36b69857192b510606751108d542b7fb80573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 15/48] fix: divide_integers_rounding_up with a zero or
 negative dividend

---
 include/fixed_containers/int_math.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index 1d3bf2e..2a90cb1 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -95,7 +95,11 @@ template <std::integral T>
 constexpr T divide_integers_rounding_up(const T dividend, const T divisor)
 {
     assert_or_abort(divisor != static_cast<T>(0));
-    return ((dividend - static_cast<T>(1)) / divisor) + static_cast<T>(1);
+    const T quotient = dividend / divisor;
+    const T remainder = dividend % divisor;
+    const bool was_rounded_down =
+        remainder != static_cast<T>(0) && (remainder > 0) == (divisor > 0);
+    return was_rounded_down ? quotient + static_cast<T>(1) : quotient;
 }
 
 }  // namespace fixed_containers::int_math
-- 
2.43.0


From 65dfed54f7baf345fcc3fbdb0f99673d52750049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 16/48] fix: safe_add must not negate the minimum of a signed
 type

---
 include/fixed_containers/int_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index 2a90cb1..668be1d 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -85,7 +85,7 @@ constexpr UnsignedIntegralAndSign<T> safe_add(const T addend_left,
 {
     if (addend_right < 0)
     {
-        return safe_subtract(addend_left, static_cast<T>(-addend_right));
+        return safe_subtract(addend_left, static_cast<T>(T{0} - static_cast<T>(addend_right)));
     }
 
     return UnsignedIntegralAndSign<T>::create_positive(addend_left + static_cast<T>(addend_right));
-- 
2.43.0


From 3ceff06b74c94c4369a194e307bba75b15267ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 17/48] fix: OptionalReference emplace must compile

---
 include/fixed_containers/optional_reference.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index aa55967..ae85235 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -138,10 +138,10 @@ public:
 
     constexpr void reset() noexcept { val() = nullptr; }
 
-    constexpr reference emplace(reference val) noexcept
+    constexpr reference emplace(reference value) noexcept
     {
-        val() = &val;
-        return val;
+        val() = std::addressof(value);
+        return value;
     }
 
 private:
-- 
2.43.0


From bcc0a343ba7d656124d4ae489ee8cd7fb1cbc162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 18/48] fix: EnumMap insert_or_assign must support values that
 are not trivially assignable

---
 include/fixed_containers/enum_map.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index ec97eda..857f4cf 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -471,8 +471,13 @@ public:
         {
             increment_size();
             array_set_unchecked_at(ordinal) = true;
+            memory::construct_at_address_of(
+                values_unchecked_at(ordinal), std::in_place, std::forward<M>(obj));
+        }
+        else
+        {
+            values_unchecked_at(ordinal).get() = std::forward<M>(obj);
         }
-        values_unchecked_at(ordinal) = OptionalV(std::forward<M>(obj));
         return {create_iterator(ordinal), is_insertion};
     }
     template <class M>
-- 
2.43.0


From 50ee0cbb32e9b4febbc4f9a7268dbe2cba73a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 19/48] fix: moving an IntegerRangeIterator by zero must not
 abort

---
 include/fixed_containers/integer_range_iterator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index 7ef6de7..8d6c358 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -34,6 +34,11 @@ public:
 
     constexpr void advance(const std::size_t n) noexcept
     {
+        if (n == 0)
+        {
+            return;
+        }
+
         const std::size_t end_exclusive = integer_range_.end_exclusive();
         assert_or_abort(current_index_ != end_exclusive);
 
@@ -47,6 +52,11 @@ public:
     }
     constexpr void recede(const std::size_t n) noexcept
     {
+        if (n == 0)
+        {
+            return;
+        }
+
         const std::size_t start_inclusive = integer_range_.start_inclusive();
         assert_or_abort(current_index_ != start_inclusive - 1);
 
-- 
2.43.0


From 6d1354c23a6c558ef0bfa3aa0cf7088e7dfdfc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:03 +0000
Subject: [PATCH 20/48] fix: ordering of reverse IntegerRangeIterators when the
 range starts at zero

---
 include/fixed_containers/integer_range_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index 8d6c358..77c60b6 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -84,7 +84,9 @@ public:
     constexpr auto operator<=>(const IntegerRangeEntryProvider& other) const noexcept
     {
         assert_or_abort(integer_range_ == other.integer_range_);
-        return current_index_ <=> other.current_index_;
+        // The position before the start wraps around when the range starts at zero
+        const std::size_t before_start = integer_range_.start_inclusive() - 1;
+        return (current_index_ - before_start) <=> (other.current_index_ - before_start);
     }
 
     constexpr std::ptrdiff_t operator-(const IntegerRangeEntryProvider& other) const
-- 
2.43.0


From bbf9ffd09ff63907a959c6b957621f77849b5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:37 +0000
Subject: [PATCH 21/48] fix: inserting an empty range into
 FixedVector/FixedDeque must not relocate entries onto themselves

---
 include/fixed_containers/fixed_deque.hpp  | 6 ++++++
 include/fixed_containers/fixed_vector.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 1fd0830..4fd8bc3 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -586,6 +586,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Entries must not be relocated onto themselves
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 9a4d967..404ba1b 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -596,6 +596,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Entries must not be relocated onto themselves
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
-- 
2.43.0


From 58347389efebda78b245aa307408ff8aaddbfe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:57 +0000
Subject: [PATCH 22/48] fix: erasing an empty range of FixedVector/FixedDeque
 must not relocate entries onto themselves

---
 include/fixed_containers/fixed_deque.hpp  | 6 ++++++
 include/fixed_containers/fixed_vector.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 4fd8bc3..060ef30 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -411,6 +411,12 @@ public:
             Checking::invalid_argument("iterators exceed container range", loc);
         }
 
+        if (first == last)
+        {
+            // Entries must not be relocated onto themselves
+            return const_to_mutable_it(first);
+        }
+
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 404ba1b..a39570a 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -394,6 +394,12 @@ public:
             Checking::invalid_argument("iterators exceed container range", loc);
         }
 
+        if (first == last)
+        {
+            // Entries must not be relocated onto themselves
+            return const_to_mutable_it(first);
+        }
+
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
-- 
2.43.0


From f737e7890b939af05c0fc7d15c29dfd5e6e5b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:05 +0000
Subject: [PATCH 23/48] fix: push_front on a FixedDeque of capacity one must
 not overflow the cycle count

---
 include/fixed_containers/circular_indexing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/circular_indexing.hpp b/include/fixed_containers/circular_indexing.hpp
index 6ee5a23..ab9787f 100644
--- a/include/fixed_containers/circular_indexing.hpp
+++ b/include/fixed_containers/circular_indexing.hpp
@@ -63,7 +63,9 @@ constexpr CyclesAndInteger decrement_index_with_wraparound(const IntegerRangeTyp
         int_math::safe_subtract(negative_cycles * range_size, n).template cast<std::size_t>();
 
     CyclesAndInteger out = increment_index_with_wraparound(range, index, positive_modulo);
-    out.cycles -= static_cast<std::int64_t>(negative_cycles);
+    // Unsigned arithmetic, the intermediate values can exceed the range of the signed type
+    out.cycles =
+        static_cast<std::int64_t>(static_cast<std::uint64_t>(out.cycles) - negative_cycles);
     return out;
 }
 }  // namespace fixed_containers::circular_indexing
-- 
2.43.0


From 010c47db885e37a891decc098dec3f007edfcac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:16 +0000
Subject: [PATCH 24/48] fix: map emplace must accept a pair that is an lvalue

---
 include/fixed_containers/emplace.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/emplace.hpp b/include/fixed_containers/emplace.hpp
index e183a20..1572ccc 100644
--- a/include/fixed_containers/emplace.hpp
+++ b/include/fixed_containers/emplace.hpp
@@ -14,13 +14,13 @@ constexpr std::pair<typename Container::iterator, bool> emplace_in_terms_of_try_
 {
     return [&]<typename First, typename... Rest>(First&& first, Rest&&... rest)
     {
-        if constexpr (sizeof...(Rest) == 0 && IsStdPair<First>)
+        if constexpr (sizeof...(Rest) == 0 && IsStdPair<std::remove_cvref_t<First>>)
         {
             // Lambda to avoid compilation errors with .first/.second when passing a non-pair
             return [&container]<typename Pair>(Pair&& pair)
             {
-                return container.try_emplace(std::forward<decltype(pair.first)>(pair.first),
-                                             std::forward<decltype(pair.second)>(pair.second));
+                return container.try_emplace(std::forward<Pair>(pair).first,
+                                             std::forward<Pair>(pair).second);
             }(std::forward<First>(first));
         }
         else if constexpr (sizeof...(Rest) == 2 &&
-- 
2.43.0


From 072349b316b0224ac20740a64a33fde7d8272114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:55 +0000
Subject: [PATCH 25/48] fix: rbegin().base() of an empty FixedMap/FixedSet must
 be end()

---
 include/fixed_containers/fixed_map.hpp | 2 +-
 include/fixed_containers/fixed_set.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 60d952a..12d5143 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -101,8 +101,8 @@ private:
             else
             {
                 current_index_ = tree_->index_of_successor_at(current_index_);
-                current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
             }
+            current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
         }
         constexpr void recede() noexcept
         {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index a0fb91d..18619cb 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -80,8 +80,8 @@ private:
             else
             {
                 current_index_ = tree_->index_of_successor_at(current_index_);
-                current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
             }
+            current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
         }
         constexpr void recede() noexcept
         {
-- 
2.43.0


From cc5afbee676db4db11b1c7c724f26401d07589fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:10 +0000
Subject: [PATCH 26/48] fix: heterogeneous bounds and count of
 FixedMap/FixedSet must cover every equivalent entry

---
 include/fixed_containers/fixed_map.hpp        | 21 ++++------
 .../fixed_containers/fixed_red_black_tree.hpp | 40 +++++++++++++++++++
 include/fixed_containers/fixed_set.hpp        | 12 +++---
 3 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 12d5143..5a3ae01 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -14,6 +14,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 
 namespace fixed_containers
 {
@@ -537,7 +538,7 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        return static_cast<std::size_t>(std::distance(lower_bound(key), upper_bound(key)));
     }
 
     [[nodiscard]] constexpr iterator lower_bound(const K& key) noexcept
@@ -552,15 +553,13 @@ public:
     [[nodiscard]] constexpr iterator lower_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_iterator(tree().index_of_first_not_less(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_not_less(key));
     }
 
     [[nodiscard]] constexpr iterator upper_bound(const K& key) noexcept
@@ -575,15 +574,13 @@ public:
     [[nodiscard]] constexpr iterator upper_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_higher(np_idxs));
+        return create_iterator(tree().index_of_first_greater(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_greater(key));
     }
 
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K& key) noexcept
@@ -601,16 +598,14 @@ public:
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
     template <class K0>
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 3325435..163e1da 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -328,6 +328,46 @@ public:
         return index_of_node_ceiling(index_of_node_with_parent(key));
     }
 
+    // A heterogeneous key can be equivalent to more than one entry
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_not_less(const K0& key) const noexcept
+    {
+        NodeIndex out = NULL_INDEX;
+        for (NodeIndex i = root_index(); i != NULL_INDEX;)
+        {
+            const RedBlackTreeNodeView current_node = tree_storage_at(i);
+            if (compare(key, current_node.key()) <= 0)
+            {
+                out = i;
+                i = current_node.left_index();
+            }
+            else
+            {
+                i = current_node.right_index();
+            }
+        }
+        return out;
+    }
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_greater(const K0& key) const noexcept
+    {
+        NodeIndex out = NULL_INDEX;
+        for (NodeIndex i = root_index(); i != NULL_INDEX;)
+        {
+            const RedBlackTreeNodeView current_node = tree_storage_at(i);
+            if (compare(key, current_node.key()) < 0)
+            {
+                out = i;
+                i = current_node.left_index();
+            }
+            else
+            {
+                i = current_node.right_index();
+            }
+        }
+        return out;
+    }
+
     template <class K0>
     [[nodiscard]] constexpr bool contains_node(const K0& key) const noexcept
     {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 18619cb..bc0c7e6 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -13,6 +13,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <memory>
 
 namespace fixed_containers
@@ -336,7 +337,7 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        return static_cast<std::size_t>(std::distance(lower_bound(key), upper_bound(key)));
     }
 
     [[nodiscard]] constexpr const_iterator lower_bound(const K& key) const noexcept
@@ -347,8 +348,7 @@ public:
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_not_less(key));
     }
 
     [[nodiscard]] constexpr const_iterator upper_bound(const K& key) const noexcept
@@ -359,8 +359,7 @@ public:
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_greater(key));
     }
 
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
@@ -374,8 +373,7 @@ public:
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
-- 
2.43.0


From 36cf15187d0139e4cf2dbf5e2b1dc3e37f98d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:03 +0000
Subject: [PATCH 27/48] fix: reading a FixedString from a stream must accept an
 exact fit, keep the delimiter and not fail at end of input

---
 include/fixed_containers/fixed_string.hpp | 39 ++++++++++-------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index e1b66e0..03f6b1b 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -660,39 +660,32 @@ template <std::size_t MAXIMUM_LENGTH, typename CheckingType>
 std::istream& operator>>(std::istream& stream, FixedString<MAXIMUM_LENGTH, CheckingType>& str)
 {
     static constexpr std::size_t MAXIMUM_LENGTH_WITH_NULL_TERMINATOR = MAXIMUM_LENGTH + 1;
-    str.clear();
 
     // Skip leading whitespace (`std::istream >> std::string` behaves the same way)
-    stream >> std::ws;
-
-    char character{};
-    stream.get(character);
-
-    // If EOF/error, put the character back and return
-    if (stream.eof() || stream.fail())
+    const std::istream::sentry sentry{stream};
+    if (!sentry)
     {
-        return stream.putback(character);
+        return stream;
     }
 
-    for (; !std::isspace(character) && !is_full(str) && !stream.eof() && !stream.fail();
-         stream.get(character))
+    str.clear();
+    // The delimiter stays in the stream
+    for (int character = stream.peek();
+         character != std::istream::traits_type::eof() && !std::isspace(character);
+         character = stream.peek())
     {
-        str.push_back(character);
+        if (preconditions::test(!is_full(str)))
+        {
+            CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
+                                       std_transition::source_location::current());
+        }
+        str.push_back(std::istream::traits_type::to_char_type(character));
+        stream.ignore();
     }
 
-    if (stream.fail())
+    if (str.empty())
     {
         stream.setstate(std::ios::failbit);
-        return stream;
-    }
-
-    const bool string_is_full = is_full(str);
-    const bool stream_eof = stream.eof();
-    const bool has_exceeded_capacity = string_is_full && !stream_eof;
-    if (preconditions::test(!has_exceeded_capacity))
-    {
-        CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
-                                   std_transition::source_location::current());
     }
 
     return stream;
-- 
2.43.0


From eabe36cc51ba47a35139600aa59cc0e2657c4ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:34 +0000
Subject: [PATCH 28/48] fix: FixedString insert must support input that is a
 part of the string itself

---
 include/fixed_containers/fixed_string.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 03f6b1b..5b3be6a 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -7,10 +7,12 @@
 #include "fixed_containers/sequence_container_checking.hpp"
 #include "fixed_containers/source_location.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
+#include <iterator>
 #include <string_view>
 
 namespace fixed_containers
@@ -256,7 +258,12 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, first, last, loc);
+        // Append and rotate, because the input is allowed to be a part of this string
+        const auto pos_offset = std::distance(cbegin(), pos);
+        const auto old_length = std::distance(cbegin(), cend());
+        vec().insert(vec().cend(), first, last, loc);
+        std::rotate(std::next(begin(), pos_offset), std::next(begin(), old_length), end());
+        return std::next(begin(), pos_offset);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -271,8 +278,7 @@ public:
         std::string_view view,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, view.begin(), view.end(), loc);
+        return insert(pos, view.begin(), view.end(), loc);
     }
 
     constexpr iterator erase(
-- 
2.43.0


From 1e14a876537e7276aabb58404b66aba74461d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:08 +0000
Subject: [PATCH 29/48] fix: make EnumMap comparable across checking types, as
 its operator== declares

---
 include/fixed_containers/enum_map.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index 857f4cf..28a1d74 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -124,6 +124,10 @@ private:
 template <class K, class V, customize::EnumMapChecking<K> CheckingType>
 class EnumMapBase
 {
+    // Comparison is allowed across maps with different checking
+    template <class K2, class V2, customize::EnumMapChecking<K2> CheckingType2>
+    friend class EnumMapBase;
+
 public:
     using key_type = K;
     using mapped_type = V;
-- 
2.43.0


From a6e4fba44606b7416e42a96a8eda7be83f01b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:27 +0000
Subject: [PATCH 30/48] fix: return the new element from
 StackAdapter/QueueAdapter emplace, as the std adapters do

---
 include/fixed_containers/queue_adapter.hpp | 2 +-
 include/fixed_containers/stack_adapter.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/queue_adapter.hpp b/include/fixed_containers/queue_adapter.hpp
index 64dc02f..e873af2 100644
--- a/include/fixed_containers/queue_adapter.hpp
+++ b/include/fixed_containers/queue_adapter.hpp
@@ -91,7 +91,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
diff --git a/include/fixed_containers/stack_adapter.hpp b/include/fixed_containers/stack_adapter.hpp
index c02b0b1..1332e76 100644
--- a/include/fixed_containers/stack_adapter.hpp
+++ b/include/fixed_containers/stack_adapter.hpp
@@ -76,7 +76,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
-- 
2.43.0


From 0285e55d3ef8a140fe4e53bd221f7cf97cf798e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:53 +0000
Subject: [PATCH 31/48] fix: make FixedDequeRawView iterable with index types
 narrower than size_t

---
 include/fixed_containers/fixed_deque_raw_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_deque_raw_view.hpp b/include/fixed_containers/fixed_deque_raw_view.hpp
index 9bebef3..bfc3f45 100644
--- a/include/fixed_containers/fixed_deque_raw_view.hpp
+++ b/include/fixed_containers/fixed_deque_raw_view.hpp
@@ -74,7 +74,7 @@ public:
     [[nodiscard]] Iterator end() const
     {
         auto stats = start_and_distance();
-        return Iterator{ReferenceProvider{this, stats.distance}};
+        return Iterator{ReferenceProvider{this, static_cast<IndexType>(stats.distance)}};
     }
 
     [[nodiscard]] StartingIntegerAndDistance start_and_distance() const
-- 
2.43.0


From 8f7075b9b1c3d9af0ad6cb64f404536a563d1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:34 +0000
Subject: [PATCH 32/48] fix: cast the minimum value without signed overflow in
 UnsignedIntegralAndSign

---
 include/fixed_containers/int_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index 668be1d..ea21ca2 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -51,7 +51,8 @@ public:
         if (is_negative_)
         {
             // TODO: ensure the value fits in the target type
-            return -static_cast<V>(unsigned_value());
+            // Negating one less and then subtracting it can represent the minimum value of V
+            return static_cast<V>(-static_cast<V>(unsigned_value() - 1) - 1);
         }
 
         // TODO: ensure the value fits in the target type
-- 
2.43.0


From 768985e12759cd200dc7b7dc471dd39262da2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:29 +0000
Subject: [PATCH 33/48] fix: stop integer range iterators at the end for steps
 that overflow the index

---
 include/fixed_containers/integer_range_iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index 77c60b6..36c933d 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -42,9 +42,10 @@ public:
         const std::size_t end_exclusive = integer_range_.end_exclusive();
         assert_or_abort(current_index_ != end_exclusive);
 
-        if (const std::size_t idx = current_index_ + n; idx < end_exclusive)
+        // Comparing with the remaining distance does not overflow for large steps
+        if (n < end_exclusive - current_index_)
         {
-            current_index_ = idx;
+            current_index_ += n;
             return;
         }
 
-- 
2.43.0


From ba6e9bae7b5f86922e1a95d903892dbff87b5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:27 +0000
Subject: [PATCH 34/48] fix: compare OptionalReferences of types that are not
 strongly ordered

---
 include/fixed_containers/optional_reference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index ae85235..eab74be 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -169,8 +169,8 @@ template <typename T,
           customize::OptionalReferenceChecking<T> CheckT,
           std::three_way_comparable_with<T> U,
           customize::OptionalReferenceChecking<U> CheckU>
-constexpr auto operator<=>(const OptionalReference<T, CheckT>& lhs,
-                           const OptionalReference<U, CheckU>& rhs)
+constexpr std::compare_three_way_result_t<T, U> operator<=>(
+    const OptionalReference<T, CheckT>& lhs, const OptionalReference<U, CheckU>& rhs)
 {
     if (lhs.has_value() && rhs.has_value())
     {
-- 
2.43.0


From 7b5cedba870d9b7b1103b902d907f0c0dde350b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:59 +0000
Subject: [PATCH 35/48] fix: make StructView::try_add_paths() instantiable

---
 include/fixed_containers/struct_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 0514118..107a291 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -598,7 +598,7 @@ public:
     bool try_add_paths(S&& instance, const PathSet& paths)
     {
         auto path_properties_map =
-            extract_path_properties_of_filtered(std::forward<S>(instance), paths);
+            extract_path_properties_of_filtered(std::forward<S>(instance), std::optional{paths});
         if (path_properties_map.size() != paths.size())
         {
             return false;
-- 
2.43.0


From 4efb6c325add6ee0c8313d1c1469b92286d8c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:03 +0000
Subject: [PATCH 36/48] fix: treat pointers to const bitsets and durations as
 primitive views

---
 include/fixed_containers/recursive_reflection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/recursive_reflection.hpp b/include/fixed_containers/recursive_reflection.hpp
index f19ee17..55e9b2c 100644
--- a/include/fixed_containers/recursive_reflection.hpp
+++ b/include/fixed_containers/recursive_reflection.hpp
@@ -54,7 +54,8 @@ template <typename T>
 concept AsPrimitiveValue = std::is_arithmetic_v<T> || IsDuration<T> || IsBitset<T>;
 
 template <typename T>
-concept AsPrimitiveView = std::is_pointer_v<T> && AsPrimitiveValue<std::remove_pointer_t<T>>;
+concept AsPrimitiveView =
+    std::is_pointer_v<T> && AsPrimitiveValue<std::remove_cv_t<std::remove_pointer_t<T>>>;
 
 template <typename T>
 concept AsPrimitive = AsPrimitiveValue<T> || AsPrimitiveView<T>;
-- 
2.43.0


From cc5249722e2f5f516c1aa9cd105e1c441d5c9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 37/48] fix: default-constructing a reverse iterator must not
 move it

---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 097714f..5cad995 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -68,7 +68,7 @@ private:
 
 public:
     constexpr BidirectionalIterator() noexcept
-      : BidirectionalIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 9df9bcf..0989050 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -70,7 +70,7 @@ private:
 
 public:
     constexpr RandomAccessIterator() noexcept
-      : RandomAccessIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
-- 
2.43.0


From 598b66251ee3cff82a76b2c8adaf400d5e6bec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 38/48] fix: default hash of unscoped enums must not be
 ambiguous

---
 include/fixed_containers/wyhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 8acd105..1eeb53e 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -225,7 +225,7 @@ struct hash<Enum>
 };
 
 template <typename T>
-    requires std::convertible_to<T, std::uint64_t>
+    requires(std::convertible_to<T, std::uint64_t> && !std::is_enum_v<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
-- 
2.43.0


From 3b7a4820b2bd4e814e070bbbbf13ee70064f49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:13 +0000
Subject: [PATCH 39/48] fix: default hash of floating point keys must not
 convert them to an integer

---
 include/fixed_containers/wyhash.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 1eeb53e..83a428c 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -1,12 +1,15 @@
 #pragma once
 
 #include <array>
+#include <bit>
+#include <concepts>
 #include <cstdint>
 #include <cstring>
 #include <functional>
 #include <iterator>
 #include <memory>
 #include <string>
+#include <type_traits>
 
 // This is a stripped-down implementation of wyhash: https://github.com/wangyi-fudan/wyhash
 // No big-endian support (because different values on different machines don't matter),
@@ -225,7 +228,22 @@ struct hash<Enum>
 };
 
 template <typename T>
-    requires(std::convertible_to<T, std::uint64_t> && !std::is_enum_v<T>)
+    requires(std::is_same_v<T, float> || std::is_same_v<T, double>)
+struct hash<T>
+{
+    constexpr std::uint64_t operator()(T value) const noexcept
+    {
+        using Bits =
+            std::conditional_t<sizeof(T) == sizeof(std::uint32_t), std::uint32_t, std::uint64_t>;
+        // Positive and negative zero are equal
+        const bool is_zero = !(value < T{0}) && !(value > T{0});
+        return wyhash_detail::hash(is_zero ? Bits{0} : std::bit_cast<Bits>(value));
+    }
+};
+
+template <typename T>
+    requires(std::convertible_to<T, std::uint64_t> && !std::is_enum_v<T> &&
+             !std::is_floating_point_v<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
-- 
2.43.0


From 98ffd0548ca9bbf7698908fe5f154c664e33393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:39 +0000
Subject: [PATCH 40/48] fix: copying a FixedList must not use the entries'
 operator&

---
 include/fixed_containers/fixed_doubly_linked_list.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list.hpp b/include/fixed_containers/fixed_doubly_linked_list.hpp
index e72ff58..5cbe038 100644
--- a/include/fixed_containers/fixed_doubly_linked_list.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "fixed_containers/fixed_index_based_storage.hpp"
+#include "fixed_containers/memory.hpp"
 
 #include <array>
 #include <limits>
@@ -208,7 +209,7 @@ public:
         // `chain_`
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), other.at(i));
+            memory::construct_at_address_of(this->at(i), other.at(i));
         }
     }
 
@@ -224,7 +225,7 @@ public:
             other.IMPLEMENTATION_DETAIL_DO_NOT_USE_storage_);
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), std::move(other.at(i)));
+            memory::construct_at_address_of(this->at(i), std::move(other.at(i)));
         }
     }
 
-- 
2.43.0


From 647fa3bf12d979134a0232e5c0439de88f30f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:39 +0000
Subject: [PATCH 41/48] fix: copying stored values must not pick their
 initializer_list constructors

---
 include/fixed_containers/index_or_value_storage.hpp | 12 ++++++------
 include/fixed_containers/optional_storage.hpp       | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fixed_containers/index_or_value_storage.hpp b/include/fixed_containers/index_or_value_storage.hpp
index cdeb54e..793b633 100644
--- a/include/fixed_containers/index_or_value_storage.hpp
+++ b/include/fixed_containers/index_or_value_storage.hpp
@@ -14,8 +14,8 @@ union IndexOrValueStorage
     T value;
     // clang-format off
     constexpr IndexOrValueStorage() noexcept : index{} { }
-    explicit constexpr IndexOrValueStorage(const T& var) : value{var} { }
-    explicit constexpr IndexOrValueStorage(T&& var) : value{std::move(var)} { }
+    explicit constexpr IndexOrValueStorage(const T& var) : value(var) { }
+    explicit constexpr IndexOrValueStorage(T&& var) : value(std::move(var)) { }
     template <class... Args>
     explicit constexpr IndexOrValueStorage(std::in_place_t /*unused*/, Args&&... args) : value(std::forward<Args>(args)...) { }
 
@@ -26,11 +26,11 @@ union IndexOrValueStorage
     // clang-format on
 
     constexpr IndexOrValueStorage(const IndexOrValueStorage& other)
-      : value{other.value}
+      : value(other.value)
     {
     }
     constexpr IndexOrValueStorage(IndexOrValueStorage&& other) noexcept
-      : value{std::move(other.value)}
+      : value(std::move(other.value))
     {
     }
 
@@ -58,8 +58,8 @@ union IndexOrValueStorage<T>
     T value;
     // clang-format off
     constexpr IndexOrValueStorage() noexcept : index{} { }
-    explicit constexpr IndexOrValueStorage(const T& var) : value{var} { }
-    explicit constexpr IndexOrValueStorage(T&& var) : value{std::move(var)} { }
+    explicit constexpr IndexOrValueStorage(const T& var) : value(var) { }
+    explicit constexpr IndexOrValueStorage(T&& var) : value(std::move(var)) { }
     template <class... Args>
     explicit constexpr IndexOrValueStorage(std::in_place_t /*unused*/, Args&&... args) : value(std::forward<Args>(args)...) { }
     // clang-format on
diff --git a/include/fixed_containers/optional_storage.hpp b/include/fixed_containers/optional_storage.hpp
index ddfea53..2fa83a8 100644
--- a/include/fixed_containers/optional_storage.hpp
+++ b/include/fixed_containers/optional_storage.hpp
@@ -19,8 +19,8 @@ union OptionalStorage
     T value;
     // clang-format off
     constexpr OptionalStorage() noexcept : dummy_generic{} { }
-    explicit constexpr OptionalStorage(const T& var) : value{var} { }
-    explicit constexpr OptionalStorage(T&& var) : value{std::move(var)} { }
+    explicit constexpr OptionalStorage(const T& var) : value(var) { }
+    explicit constexpr OptionalStorage(T&& var) : value(std::move(var)) { }
     template <class... Args>
     explicit constexpr OptionalStorage(std::in_place_t /*unused*/, Args&&... args) : value(std::forward<Args>(args)...) { }
 
@@ -31,11 +31,11 @@ union OptionalStorage
     // clang-format on
 
     constexpr OptionalStorage(const OptionalStorage& other)
-      : value{other.value}
+      : value(other.value)
     {
     }
     constexpr OptionalStorage(OptionalStorage&& other) noexcept
-      : value{std::move(other.value)}
+      : value(std::move(other.value))
     {
     }
 
@@ -67,8 +67,8 @@ union OptionalStorage<T>
     T value;
     // clang-format off
     constexpr OptionalStorage() noexcept : dummy_trivially_copyable{} { }
-    explicit constexpr OptionalStorage(const T& var) : value{var} { }
-    explicit constexpr OptionalStorage(T&& var) : value{std::move(var)} { }
+    explicit constexpr OptionalStorage(const T& var) : value(var) { }
+    explicit constexpr OptionalStorage(T&& var) : value(std::move(var)) { }
     template <class... Args>
     explicit constexpr OptionalStorage(std::in_place_t /*unused*/, Args&&... args) : value(std::forward<Args>(args)...) { }
 
-- 
2.43.0


From 0b37b945bb659857abca73d660ff0f6ca195cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:39 +0000
Subject: [PATCH 42/48] fix: piecewise emplace of maps must forward the entries
 of the tuples

---
 include/fixed_containers/emplace.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/emplace.hpp b/include/fixed_containers/emplace.hpp
index 1572ccc..ae29bfc 100644
--- a/include/fixed_containers/emplace.hpp
+++ b/include/fixed_containers/emplace.hpp
@@ -3,6 +3,7 @@
 #include "fixed_containers/concepts.hpp"
 
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace fixed_containers::emplace_detail
@@ -31,10 +32,11 @@ constexpr std::pair<typename Container::iterator, bool> emplace_in_terms_of_try_
                 return
                     [&container, &piece1, &piece2]<std::size_t... INDEX_1, std::size_t... INDEX_2>(
                         std::index_sequence<INDEX_1...>, std::index_sequence<INDEX_2...>) {
-                        return container.try_emplace(std::get<INDEX_1>(piece1)...,
-                                                     std::get<INDEX_2>(piece2)...);
-                    }(std::make_index_sequence<std::tuple_size_v<P1>>{},
-                      std::make_index_sequence<std::tuple_size_v<P2>>{});
+                        return container.try_emplace(
+                            std::get<INDEX_1>(std::forward<P1>(piece1))...,
+                            std::get<INDEX_2>(std::forward<P2>(piece2))...);
+                    }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<P1>>>{},
+                      std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<P2>>>{});
             }(std::forward<Rest>(rest)...);
         }
         else
-- 
2.43.0


From fcf783a2d5cd8c6f6e509a920c881e2b157e50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:39 +0000
Subject: [PATCH 43/48] fix: emplace of sets must construct the key with
 parentheses, as std::set does

---
 include/fixed_containers/emplace.hpp           | 14 ++++++++++++++
 include/fixed_containers/fixed_set.hpp         |  5 +++--
 include/fixed_containers/fixed_set_adapter.hpp |  3 ++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/emplace.hpp b/include/fixed_containers/emplace.hpp
index ae29bfc..ecc1084 100644
--- a/include/fixed_containers/emplace.hpp
+++ b/include/fixed_containers/emplace.hpp
@@ -8,6 +8,20 @@
 
 namespace fixed_containers::emplace_detail
 {
+// `T(args...)` as done by the std containers. `T{args...}` could select another constructor.
+template <typename T, typename... Args>
+constexpr T construct(Args&&... args)
+{
+    if constexpr (std::is_constructible_v<T, Args...>)
+    {
+        return T(std::forward<Args>(args)...);
+    }
+    else  // Aggregates, when their initialization with parentheses is not available
+    {
+        return T{std::forward<Args>(args)...};
+    }
+}
+
 template <typename Container, typename... Args>
     requires(sizeof...(Args) >= 1 and sizeof...(Args) <= 3)
 constexpr std::pair<typename Container::iterator, bool> emplace_in_terms_of_try_emplace_impl(
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index bc0c7e6..0c1f041 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -3,6 +3,7 @@
 #include "fixed_containers/assert_or_abort.hpp"
 #include "fixed_containers/bidirectional_iterator.hpp"
 #include "fixed_containers/concepts.hpp"
+#include "fixed_containers/emplace.hpp"
 #include "fixed_containers/erase_if.hpp"
 #include "fixed_containers/fixed_red_black_tree.hpp"
 #include "fixed_containers/preconditions.hpp"
@@ -261,12 +262,12 @@ public:
     template <class... Args>
     constexpr std::pair<const_iterator, bool> emplace(Args&&... args)
     {
-        return insert(K{std::forward<Args>(args)...});
+        return insert(emplace_detail::construct<K>(std::forward<Args>(args)...));
     }
     template <class... Args>
     constexpr iterator emplace_hint(const_iterator hint, Args&&... args)
     {
-        return insert(hint, K{std::forward<Args>(args)...});
+        return insert(hint, emplace_detail::construct<K>(std::forward<Args>(args)...));
     }
 
     constexpr const_iterator erase(const_iterator pos) noexcept
diff --git a/include/fixed_containers/fixed_set_adapter.hpp b/include/fixed_containers/fixed_set_adapter.hpp
index 2bf9f7a..2b799c7 100644
--- a/include/fixed_containers/fixed_set_adapter.hpp
+++ b/include/fixed_containers/fixed_set_adapter.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "fixed_containers/assert_or_abort.hpp"
+#include "fixed_containers/emplace.hpp"
 #include "fixed_containers/erase_if.hpp"
 #include "fixed_containers/forward_iterator.hpp"
 #include "fixed_containers/preconditions.hpp"
@@ -225,7 +226,7 @@ public:
     template <class... Args>
     constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept
     {
-        return insert(K{std::forward<Args>(args)...});
+        return insert(emplace_detail::construct<K>(std::forward<Args>(args)...));
     }
 
     template <class... Args>
-- 
2.43.0


From 8993db2a690fa5cd69accbe4a4af88944f4fa2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:11 +0000
Subject: [PATCH 44/48] fix: equality of containers must work across policies
 and compare the entries

---
 include/fixed_containers/fixed_deque.hpp  | 8 --------
 include/fixed_containers/fixed_list.hpp   | 8 --------
 include/fixed_containers/fixed_map.hpp    | 8 --------
 include/fixed_containers/fixed_set.hpp    | 8 --------
 include/fixed_containers/fixed_vector.hpp | 8 --------
 5 files changed, 40 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 060ef30..d65ba36 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -506,14 +506,6 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedDequeBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
-        {
-            if (this == &other)
-            {
-                return true;
-            }
-        }
-
         return std::ranges::equal(*this, other);
     }
 
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 657a475..64996c8 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -465,14 +465,6 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedList<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
-        {
-            if (this == &other)
-            {
-                return true;
-            }
-        }
-
         return std::ranges::equal(*this, other);
     }
 
diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 5a3ae01..076ec11 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -625,14 +625,6 @@ public:
                                                            StorageTemplate2,
                                                            CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
-        {
-            if (this == &other)
-            {
-                return true;
-            }
-        }
-
         return std::ranges::equal(*this, other);
     }
 
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 0c1f041..ed5c22f 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -390,14 +390,6 @@ public:
         const FixedSet<K, MAXIMUM_SIZE_2, Compare2, COMPACTNESS_2, StorageTemplate2, CheckingType2>&
             other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
-        {
-            if (this == &other)
-            {
-                return true;
-            }
-        }
-
         return std::ranges::equal(*this, other);
     }
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index a39570a..c2418aa 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -580,14 +580,6 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedVectorBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
-        {
-            if (this == &other)
-            {
-                return true;
-            }
-        }
-
         return std::ranges::equal(*this, other);
     }
 
-- 
2.43.0


From 7c7382effc0f966c838b2ce9f2d8d4bad007be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:52 +0000
Subject: [PATCH 45/48] fix: reading a FixedString from a stream must honour
 the field width

---
 include/fixed_containers/fixed_string.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 5b3be6a..cbd9fb0 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -675,11 +675,16 @@ std::istream& operator>>(std::istream& stream, FixedString<MAXIMUM_LENGTH, Check
     }
 
     str.clear();
+    // A field width limits the number of extracted characters and is used up by the extraction
+    const std::streamsize width = stream.width(0);
     // The delimiter stays in the stream
-    for (int character = stream.peek();
-         character != std::istream::traits_type::eof() && !std::isspace(character);
-         character = stream.peek())
+    while (width <= 0 || str.size() < static_cast<std::size_t>(width))
     {
+        const int character = stream.peek();
+        if (character == std::istream::traits_type::eof() || std::isspace(character))
+        {
+            break;
+        }
         if (preconditions::test(!is_full(str)))
         {
             CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
-- 
2.43.0


From a7aa2b5d53b4be5c50e7838363f085786293fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:53 +0000
Subject: [PATCH 46/48] fix: value-initialised iterators of the raw tree and
 map views must not read from a null tree

---
 include/fixed_containers/fixed_red_black_tree_view.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_red_black_tree_view.hpp b/include/fixed_containers/fixed_red_black_tree_view.hpp
index 2f279c9..7cbcf8b 100644
--- a/include/fixed_containers/fixed_red_black_tree_view.hpp
+++ b/include/fixed_containers/fixed_red_black_tree_view.hpp
@@ -67,8 +67,16 @@ public:
         {
         }
 
+        // There is no tree to read from
         Iterator() noexcept
-          : Iterator(nullptr, {}, {}, {}, {}, false)
+          : base_{nullptr}
+          , elem_size_bytes_{}
+          , max_size_bytes_{}
+          , compactness_{}
+          , storage_type_{}
+          , storage_elem_size_bytes_{}
+          , index_{NULL_INDEX}
+          , cur_pointer_{nullptr}
         {
         }
 
-- 
2.43.0


From 5d8b590735075029d7d81db214bcdb242af09b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:53 +0000
Subject: [PATCH 47/48] fix: value-initialised iterators of
 ContiguousRangeSubStructView must compile

---
 include/fixed_containers/struct_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 107a291..2b4ab22 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -795,7 +795,8 @@ class ContiguousRangeSubStructView
 
     public:
         constexpr ReferenceProvider() noexcept
-          : ReferenceProvider{nullptr, 0}
+          : accessing_info_{nullptr}
+          , current_index_{0}
         {
         }
 
-- 
2.43.0


From 751e1ca3687d428fceeb12f112a188b981cb52fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:53 +0000
Subject: [PATCH 48/48] fix: path_to_string of an empty path must clear the
 string it writes to

---
 include/fixed_containers/recursive_reflection.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/fixed_containers/recursive_reflection.hpp b/include/fixed_containers/recursive_reflection.hpp
index 55e9b2c..6110f68 100644
--- a/include/fixed_containers/recursive_reflection.hpp
+++ b/include/fixed_containers/recursive_reflection.hpp
@@ -270,11 +270,6 @@ constexpr PathNameChain path_from_string(const std::string_view& path_name_chain
 template <typename StringType>
 constexpr StringType path_to_string(const PathNameChain& path_name_chain, out<StringType> out)
 {
-    if (path_name_chain.empty())
-    {
-        return {};
-    }
-
     out->clear();
     bool first = true;
 
-- 
2.43.0

