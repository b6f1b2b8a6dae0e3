From 1fa3e6f3977e5b0f165c58a5e5513f88b9f71cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 01/40] fix: verge_adapter accepts pairs of bidirectional
 iterators

It computed the size of the range with last - first, which only random-access
iterators provide.
---
 include/cpp-sort/adapters/verge_adapter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/verge_adapter.h b/include/cpp-sort/adapters/verge_adapter.h
index b9a9f8c..cd0bfcb 100644
--- a/include/cpp-sort/adapters/verge_adapter.h
+++ b/include/cpp-sort/adapters/verge_adapter.h
@@ -83,7 +83,8 @@ namespace cppsort
                     "verge_adapter requires a stronger iterator category"
                 );
 
-                verge::sort<Stable>(std::move(first), std::move(last), last - first,
+                auto size = std::distance(first, last);
+                verge::sort<Stable>(std::move(first), std::move(last), size,
                                     std::move(compare), std::move(projection),
                                     this->get());
             }
-- 
2.43.0


From 161e594be2a2810caca2910791d56aab4270a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 02/40] fix: do not construct over the live elements of
 wiki_sort's cache

The cache of wiki_sort is made of live objects, yet the merge using it called
buffered_inplace_merge, which constructs elements in its buffer and destroys
them: non-trivial objects were overwritten, then destroyed twice.
---
 include/cpp-sort/detail/wiki_sort.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 23fa5e7..eea3366 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -19,6 +19,7 @@
 #include <iterator>
 #include <type_traits>
 #include <utility>
+#include <cpp-sort/comparators/flip.h>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/iter_move.h>
 #include "bitops.h"
@@ -492,8 +493,24 @@ namespace detail
                                 detail::rotate(A.start, A.end, B.end);
                             } else if (comp(proj(*B.start), proj(*std::prev(A.end)))) {
                                 // these two ranges weren't already in order, so we need to merge them
-                                buffered_inplace_merge(A.start, A.end, B.end, compare, projection,
-                                                       A.length(), B.length(), cache_begin);
+                                // the elements of the cache are alive, so the shorter range has to be
+                                // moved into it by assignment
+                                if (A.length() <= B.length()) {
+                                    detail::move(A.start, A.end, cache_begin);
+                                    half_inplace_merge(cache_begin, cache_begin + A.length(),
+                                                       B.start, B.end, A.start, A.length(),
+                                                       compare, projection);
+                                } else {
+                                    detail::move(B.start, B.end, cache_begin);
+                                    half_inplace_merge(
+                                        std::make_reverse_iterator(cache_begin + B.length()),
+                                        std::make_reverse_iterator(cache_begin),
+                                        std::make_reverse_iterator(A.end),
+                                        std::make_reverse_iterator(A.start),
+                                        std::make_reverse_iterator(B.end), B.length(),
+                                        cppsort::flip(compare), projection
+                                    );
+                                }
                             }
                         }
                     }
-- 
2.43.0


From 570159c6abdd7816e37b0ecc6fb9d7a6ab1c3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 03/40] fix: wiki_sort read uninitialised iterators when no
 internal buffer was pulled

---
 include/cpp-sort/detail/wiki_sort.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index eea3366..8197b1f 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -541,8 +541,8 @@ namespace detail
                         difference_type count;
                         Range<RandomAccessIterator> range;
                     } pull[2];
-                    pull[0].count = 0; pull[0].range = { first, first };
-                    pull[1].count = 0; pull[1].range = { first, first };
+                    pull[0].from = pull[0].to = first; pull[0].count = 0; pull[0].range = { first, first };
+                    pull[1].from = pull[1].to = first; pull[1].count = 0; pull[1].range = { first, first };
 
                     // find two internal buffers of size 'buffer_size' each
                     // let's try finding both buffers at the same time from a single A or B subarray
-- 
2.43.0


From e9415da6b5b9eb16bd0f91c7806cd7ebfad00b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 04/40] fix: pdqsort does not self-move the pivot when it is
 already in place

---
 include/cpp-sort/detail/pdqsort.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/pdqsort.h b/include/cpp-sort/detail/pdqsort.h
index 39be552..b01324e 100644
--- a/include/cpp-sort/detail/pdqsort.h
+++ b/include/cpp-sort/detail/pdqsort.h
@@ -328,7 +328,9 @@ namespace detail
 
             // Put the pivot in the right place.
             auto pivot_pos = first - 1;
-            *begin = iter_move(pivot_pos);
+            if (pivot_pos != begin) {
+                *begin = iter_move(pivot_pos);
+            }
             *pivot_pos = std::move(pivot);
 
             return std::make_pair(pivot_pos, already_partitioned);
@@ -380,7 +382,9 @@ namespace detail
 
             // Put the pivot in the right place.
             RandomAccessIterator pivot_pos = first - 1;
-            *begin = iter_move(pivot_pos);
+            if (pivot_pos != begin) {
+                *begin = iter_move(pivot_pos);
+            }
             *pivot_pos = std::move(pivot);
 
             return std::make_pair(pivot_pos, already_partitioned);
@@ -415,7 +419,9 @@ namespace detail
             }
 
             RandomAccessIterator pivot_pos = last;
-            *begin = iter_move(pivot_pos);
+            if (pivot_pos != begin) {
+                *begin = iter_move(pivot_pos);
+            }
             *pivot_pos = std::move(pivot);
 
             return pivot_pos;
-- 
2.43.0


From 372b49ef8329d7e038008041f7e8d7683ae037e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 05/40] fix: list merging keeps both lists consistent when a
 comparison throws

---
 include/cpp-sort/detail/fixed_size_list.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 6ac8710..a8110f6 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -669,6 +669,9 @@ namespace detail
                             ++other_it;
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         fast_splice_(first, insert_begin, other_it);
+                        // The spliced nodes don't belong to the other list anymore,
+                        // it has to know it if a later comparison throws
+                        other.sentinel_node_.next = other_it.base();
                     } else {
                         ++first;
                     }
@@ -733,6 +736,9 @@ namespace detail
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         first.base()->prev->next = insert_first.base();
                         insert_last.base()->next = first.base();
+                        // The spliced nodes don't belong to the other list anymore,
+                        // it has to know it if a later comparison throws
+                        other.sentinel_node_.next = other_it.base();
                     } else {
                         ++first;
                     }
-- 
2.43.0


From 76d293673364a11fa1f65fc07c22cb28c1d2406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 06/40] fix: forward recmerge passes the size of the buffered
 part to half_inplace_merge

---
 include/cpp-sort/detail/recmerge_forward.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/recmerge_forward.h b/include/cpp-sort/detail/recmerge_forward.h
index 333711e..37b6e86 100644
--- a/include/cpp-sort/detail/recmerge_forward.h
+++ b/include/cpp-sort/detail/recmerge_forward.h
@@ -25,6 +25,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -116,7 +117,7 @@ namespace detail
 
             half_inplace_merge(
                 buffer, buff_ptr, f1, std::next(f1, n1), f0,
-                n0, std::move(compare), std::move(projection)
+                (std::min)(n0, n1), std::move(compare), std::move(projection)
             );
             return;
         }
-- 
2.43.0


From bcefb4cdaa839c1b4d9a6e6148a2740edfde94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 07/40] fix: slab_sort does not leak when moving an element to
 a list node throws

---
 include/cpp-sort/detail/slabsort.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index a647535..f71c2d2 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -199,13 +199,20 @@ namespace detail
         // Reify encroaching lists
 
         for (auto& list : lists) {
-            // TODO: handle destruction when an exception is thrown during the loop
-            for (auto it = list.begin(), end = list.end() ; it != end ; ++it) {
-                auto node = it.base();
+            // Nodes holding an iterator and nodes holding a value live in
+            // different lists, such that the right destructor is called on
+            // the contents of every node if moving a value throws
+            fixed_size_list<node_type> values(node_pool);
+            while (not list.is_empty()) {
+                auto node = list.extract_front();
                 auto value_it = node->it;
                 detail::destroy_at(&node->it);
-                ::new(&node->value) rvalue_type(iter_move(value_it));
+                node_pool.retrieve_nodes(node, node);
+                values.push_back([&value_it](node_type* new_node) {
+                    ::new (&new_node->value) rvalue_type(iter_move(value_it));
+                });
             }
+            list = std::move(values);
             list.set_node_destructor(destroy_node_contents<rvalue_type, node_type, &node_type::value>);
         }
 
-- 
2.43.0


From f0b9ed9bc29a6ad1e1f1ff9809d589b6a0a326a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 08/40] fix: keep -0.0 and 0.0 apart in the compare-exchange of
 floating-point numbers

---
 include/cpp-sort/detail/swap_if.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index ff46cff..64b2501 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -59,9 +59,11 @@ namespace detail
     auto swap_if(Float& x, Float& y, std::less<>, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
+        // The order of the parameters matters when x and y are
+        // equivalent: -0.0 and 0.0 should both be preserved
         Float dx = x;
         x = (std::min)(x, y);
-        y = (std::max)(dx, y);
+        y = (std::max)(y, dx);
     }
 
     template<typename Integer>
@@ -77,9 +79,11 @@ namespace detail
     auto swap_if(Float& x, Float& y, std::greater<>, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
+        // The order of the parameters matters when x and y are
+        // equivalent: -0.0 and 0.0 should both be preserved
         Float dx = x;
         x = (std::max)(x, y);
-        y = (std::min)(dx, y);
+        y = (std::min)(y, dx);
     }
 
 #if CPPSORT_STD_IDENTITY_AVAILABLE
-- 
2.43.0


From 955559b4fb82472116f8b13abd1bb39e2588bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 09/40] fix: probe::osc max_for_size is an attained upper bound
 for every size

---
 docs/Measures-of-presortedness.md | 2 +-
 include/cpp-sort/probes/osc.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/Measures-of-presortedness.md b/docs/Measures-of-presortedness.md
index 1be6f1b..5a55422 100644
--- a/docs/Measures-of-presortedness.md
+++ b/docs/Measures-of-presortedness.md
@@ -233,7 +233,7 @@ Computes the *Oscillation* measure described by C. Levcopoulos and O. Petersson
 
 When there isn't enough extra memory available, `probe::osc` falls back to an in-place O(n²) algorithm.
 
-`max_for_size`: (|*X*| * (|*X*| - 2) - 1) / 2 when the values in *X* are strongly oscillating.
+`max_for_size`: |*X*| * (|*X*| - 2) / 2 when the values in *X* are strongly oscillating.
 
 ***WARNING:** the O(n²) fallback of `probe::osc` is deprecated since version 1.12.0 and removed in version 2.0.0.*
 
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index afa170b..771b801 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -210,7 +210,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : (n * (n - 2) - 1) / 2;
+                return n < 2 ? 0 : n * (n - 2) / 2;
             }
         };
     }
-- 
2.43.0


From 59feb94ed800cad3a1cfb7e3d32175153f869a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 10/40] fix: probe::ham max_for_size is 0 for a single element

---
 include/cpp-sort/probes/ham.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/probes/ham.h b/include/cpp-sort/probes/ham.h
index fde0c2a..50365db 100644
--- a/include/cpp-sort/probes/ham.h
+++ b/include/cpp-sort/probes/ham.h
@@ -110,7 +110,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : n;
+                return n < 2 ? 0 : n;
             }
         };
     }
-- 
2.43.0


From 787bedc528ec85d86fecdb27471f00a254e8ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 11/40] fix: probe::block sorts stably so that sorted sequences
 with ties measure 0

---
 include/cpp-sort/probes/block.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/probes/block.h b/include/cpp-sort/probes/block.h
index e83fb26..334dd0e 100644
--- a/include/cpp-sort/probes/block.h
+++ b/include/cpp-sort/probes/block.h
@@ -19,7 +19,7 @@
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
-#include "../detail/pdqsort.h"
+#include "../detail/merge_sort.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -51,9 +51,11 @@ namespace probe
                 iterators.emplace_back(it);
             }
 
-            // Sort the iterators on pointed values
-            cppsort::detail::pdqsort(
-                iterators.begin(), iterators.end(),
+            // Sort the iterators on pointed values, the sort has to be
+            // stable so that equivalent elements which already follow
+            // each other aren't counted
+            cppsort::detail::merge_sort(
+                iterators.begin(), iterators.end(), size,
                 compare, utility::indirect{} | projection
             );
 
-- 
2.43.0


From 0d9cf5092a96d82bc4bd6dd323ec5d4bfe05d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 12/40] fix: counting_sort handles any range of any integer
 type

The range of values was computed in the value type, which wrapped for wide
ranges (and led to out-of-bounds writes), incrementing past the last value
overflowed for the extreme values of signed types, and bool was not handled.
---
 include/cpp-sort/detail/counting_sort.h | 84 +++++++++++++++++++++----
 1 file changed, 72 insertions(+), 12 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 8c0b366..35a2b55 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -9,40 +9,96 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <algorithm>
+#include <cstddef>
 #include <functional>
 #include <iterator>
+#include <limits>
+#include <new>
 #include "immovable_vector.h"
 #include "iterator_traits.h"
 #include "minmax_element_and_is_sorted.h"
+#include "type_traits.h"
 
 namespace cppsort
 {
 namespace detail
 {
+    ////////////////////////////////////////////////////////////
+    // The distance between two values of an integer type might
+    // not be representable in that type, so it is computed with
+    // an unsigned integer type at least as wide
+
+    template<typename Integer>
+    struct counting_sort_unsigned
+    {
+        using type = unsigned long long int;
+    };
+
+#ifdef __SIZEOF_INT128__
+    template<>
+    struct counting_sort_unsigned<__int128_t>
+    {
+        using type = __uint128_t;
+    };
+
+    template<>
+    struct counting_sort_unsigned<__uint128_t>
+    {
+        using type = __uint128_t;
+    };
+#endif
+
+    template<typename Integer>
+    constexpr auto counting_sort_offset(Integer value, Integer min)
+        -> typename counting_sort_unsigned<Integer>::type
+    {
+        using unsigned_type = typename counting_sort_unsigned<Integer>::type;
+        return static_cast<unsigned_type>(value) - static_cast<unsigned_type>(min);
+    }
+
+    template<typename Integer>
+    auto counting_sort_range(Integer min, Integer max)
+        -> std::ptrdiff_t
+    {
+        constexpr auto max_range = (std::numeric_limits<std::ptrdiff_t>::max)()
+                                 / static_cast<std::ptrdiff_t>(sizeof(std::ptrdiff_t));
+
+        auto offset = counting_sort_offset(max, min);
+        if (offset >= static_cast<decltype(offset)>(max_range)) {
+            // There can't be that many counters in memory
+            throw std::bad_alloc();
+        }
+        return static_cast<std::ptrdiff_t>(offset) + 1;
+    }
+
     template<typename ForwardIterator>
     auto counting_sort(ForwardIterator first, ForwardIterator last)
         -> void
     {
+        using value_type = value_type_t<ForwardIterator>;
         using difference_type = difference_type_t<ForwardIterator>;
+        using unsigned_type = typename counting_sort_unsigned<value_type>::type;
 
         auto info = minmax_element_and_is_sorted(first, last);
         if (info.is_sorted) return;
 
-        auto min = *info.min;
-        auto max = *info.max;
-        difference_type value_range = max - min + 1;
+        value_type min = *info.min;
+        value_type max = *info.max;
+        auto value_range = counting_sort_range<value_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
-        for (difference_type n = 0; n < value_range; ++n) {
+        for (std::ptrdiff_t n = 0; n < value_range; ++n) {
             counts.emplace_back(0);
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[static_cast<std::ptrdiff_t>(counting_sort_offset<value_type>(*it, min))];
         }
 
+        auto value = static_cast<unsigned_type>(min);
         for (auto count: counts) {
-            first = std::fill_n(first, count, min++);
+            first = std::fill_n(first, count, static_cast<value_type>(value));
+            ++value;
         }
     }
 
@@ -50,27 +106,31 @@ namespace detail
     auto reverse_counting_sort(ForwardIterator first, ForwardIterator last)
         -> void
     {
+        using value_type = value_type_t<ForwardIterator>;
         using difference_type = difference_type_t<ForwardIterator>;
+        using unsigned_type = typename counting_sort_unsigned<value_type>::type;
 
         auto info = minmax_element_and_is_sorted(first, last, std::greater<>{});
         if (info.is_sorted) return;
 
-        auto min = *info.max;
-        auto max = *info.min;
-        difference_type value_range = max - min + 1;
+        value_type min = *info.max;
+        value_type max = *info.min;
+        auto value_range = counting_sort_range<value_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
-        for (difference_type n = 0; n < value_range; ++n) {
+        for (std::ptrdiff_t n = 0; n < value_range; ++n) {
             counts.emplace_back(0);
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[static_cast<std::ptrdiff_t>(counting_sort_offset<value_type>(*it, min))];
         }
 
+        auto value = static_cast<unsigned_type>(max);
         for (auto rit = counts.end(); rit != counts.begin(); --rit) {
             auto count = *std::prev(rit);
-            first = std::fill_n(first, count, max--);
+            first = std::fill_n(first, count, static_cast<value_type>(value));
+            --value;
         }
     }
 }}
-- 
2.43.0


From b2006c201ef89c660d0566435cf1746d6ffa7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 13/40] fix: spreadsort computes the range of signed integers
 without overflow

---
 include/cpp-sort/detail/spreadsort/detail/integer_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
index d304f9a..f4aeac8 100644
--- a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
@@ -113,7 +113,7 @@ namespace spreadsort
         return;
       RandomAccessIter * target_bin;
       unsigned log_divisor = get_log_divisor<int_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type((proj(*max) >> 0) - (proj(*min) >> 0))));
+          last - first, rough_log_2_size(Size_type(Size_type(proj(*max) >> 0) - Size_type(proj(*min) >> 0))));
       Div_type div_min = proj(*min) >> log_divisor;
       Div_type div_max = proj(*max) >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
-- 
2.43.0


From ad833d2c93428c2bef277060d3ac56c5c6246eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 14/40] fix: spreadsort sorts negative floating point numbers
 in a narrow range

When all of the bins are negative, -div_min generally does not fit into an
unsigned int: it was truncated and negative bins were then handled as positive
ones.
---
 .../detail/spreadsort/detail/float_sort.h       | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index 2264910..9cc01ee 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -143,7 +143,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(Size_type(max) - Size_type(min))));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -209,7 +209,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(Size_type(max) - Size_type(min))));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -274,7 +274,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(Size_type(max) - Size_type(min))));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -288,12 +288,11 @@ namespace detail
             proj(*current)) >> log_divisor) - div_min)]++;
         ++current;
       }
-      //The index of the first positive bin
-      //Must be divided small enough to fit into an integer
-      unsigned first_positive = (div_min < 0) ? unsigned(-div_min) : 0;
-      //Resetting if all bins are negative
-      if (cache_offset + first_positive > cache_end)
-        first_positive = cache_end - cache_offset;
+      //The index of the first positive bin, or the number of bins when all
+      //of them are negative; -div_min is only known to fit into an integer
+      //when there is a positive bin
+      unsigned first_positive = (div_max < 0) ? bin_count
+                              : (div_min < 0) ? unsigned(-div_min) : 0;
       //Reversing the order of the negative bins
       //Note that because of the negative/positive ordering direction flip
       //We can not depend upon bin order and positions matching up
-- 
2.43.0


From 9af10b86efbb277a16054c45d2175f9e555dd64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 15/40] fix: ska_sort orders char and wchar_t the way their
 comparison operators do

Negative values were sorted after the positive ones when there were enough
elements for the radix sort to be used. The characters of a string are still
compared as unsigned characters, as std::char_traits does.
---
 include/cpp-sort/detail/ska_sort.h | 35 ++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index a39bdc7..e7d7d58 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -56,7 +56,7 @@ namespace detail
     inline auto to_unsigned_or_bool(char c)
         -> unsigned char
     {
-        return static_cast<unsigned char>(c);
+        return static_cast<unsigned char>(c) + (is_signed<char>::value ? 128 : 0);
     }
 
     inline auto to_unsigned_or_bool(char16_t c)
@@ -74,7 +74,7 @@ namespace detail
     inline auto to_unsigned_or_bool(wchar_t c)
         -> std::uint32_t
     {
-        return static_cast<std::uint32_t>(c);
+        return static_cast<std::uint32_t>(c) + (is_signed<wchar_t>::value ? 0x80000000u : 0u);
     }
 
     inline auto to_unsigned_or_bool(short i)
@@ -440,11 +440,38 @@ namespace detail
                           std::ptrdiff_t, Projection, void*);
     };
 
+    // std::char_traits<char> compares characters as if they were
+    // unsigned, contrary to the comparison operators of char
+
+    struct StringCharSubKey:
+        SizedSubKey<sizeof(char)>
+    {
+        static auto sub_key(char value, void*)
+            -> unsigned char
+        {
+            return static_cast<unsigned char>(value);
+        }
+    };
+
+    template<typename T, typename Element, typename=void>
+    struct ListElementBaseSubKey
+    {
+        using type = SubKey<Element>;
+    };
+
+    template<typename T>
+    struct ListElementBaseSubKey<T, char, void_t<typename T::traits_type>>
+    {
+        using type = StringCharSubKey;
+    };
+
     template<typename CurrentSubKey, typename T>
     struct ListElementSubKey:
-        SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>
+        ListElementBaseSubKey<T, remove_cvref_t<decltype(std::declval<T>()[0])>>::type
     {
-        using base = SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>;
+        using base = typename ListElementBaseSubKey<
+            T, remove_cvref_t<decltype(std::declval<T>()[0])>
+        >::type;
         using next = ListElementSubKey;
 
         template<typename U>
-- 
2.43.0


From 4ace9ae4acde7afe6e81bd750f81c1487ea2eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 16/40] fix: ska_sort gives -0.0 and 0.0 the same key

They compare equal: giving them different keys broke the order of what follows
them in pairs, tuples and collections.
---
 include/cpp-sort/detail/ska_sort.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index e7d7d58..02f3b04 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -117,7 +117,8 @@ namespace detail
     inline auto to_unsigned_or_bool(float f)
         -> std::uint32_t
     {
-        auto u = memcpy_cast<std::uint32_t>(f);
+        // -0.0 and 0.0 compare equal: they need the same key
+        auto u = f == 0 ? std::uint32_t(0) : memcpy_cast<std::uint32_t>(f);
         std::uint32_t sign_bit = -std::int32_t(u >> 31);
         return u ^ (sign_bit | 0x80000000);
     }
@@ -125,7 +126,8 @@ namespace detail
     inline auto to_unsigned_or_bool(double f)
         -> std::uint64_t
     {
-        auto u = memcpy_cast<std::uint64_t>(f);
+        // -0.0 and 0.0 compare equal: they need the same key
+        auto u = f == 0 ? std::uint64_t(0) : memcpy_cast<std::uint64_t>(f);
         std::uint64_t sign_bit = -std::int64_t(u >> 63);
         return u ^ (sign_bit | 0x8000000000000000);
     }
-- 
2.43.0


From fdfd81ef8f2e6a24120064f369900bc5567c65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 17/40] fix: natural_less compares what follows equal numbers
 naturally and in bounds

After equal numbers it compared up to the end of the first string without
checking the end of the second one, and it considered strings equivalent as soon
as both had a zero at the same place. Also give std::isdigit an unsigned char.
---
 include/cpp-sort/comparators/natural_less.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 8e511a2..5ea846c 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -29,11 +29,11 @@ namespace cppsort
                 auto last1 = begin1;
                 auto last2 = begin2;
                 do {
-                    if (not std::isdigit(*last1)) break;
+                    if (not std::isdigit(static_cast<unsigned char>(*last1))) break;
                     ++last1;
                 } while (last1 != end1);
                 do {
-                    if (not std::isdigit(*last2)) break;
+                    if (not std::isdigit(static_cast<unsigned char>(*last2))) break;
                     ++last2;
                 } while (last2 != end2);
 
@@ -54,12 +54,9 @@ namespace cppsort
                     if (size1 != size2) {
                         return size1 < size2;
                     }
-                    if (size1 == 0) {
-                        return false;
-                    }
 
-                    // Sizes are equal and not 0
-                    while (begin1 != end1) {
+                    // Sizes are equal
+                    while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
                         }
-- 
2.43.0


From df35704ec17d41dd5faeb43f8514b6c440ccedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 18/40] fix: weak and partial comparators are callable with
 floating-point numbers again

Their floating-point and generic overloads were ambiguous.
---
 include/cpp-sort/comparators/partial_greater.h | 5 ++++-
 include/cpp-sort/comparators/partial_less.h    | 5 ++++-
 include/cpp-sort/comparators/weak_greater.h    | 5 ++++-
 include/cpp-sort/comparators/weak_less.h       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/partial_greater.h b/include/cpp-sort/comparators/partial_greater.h
index fe5c2bf..0d5216e 100644
--- a/include/cpp-sort/comparators/partial_greater.h
+++ b/include/cpp-sort/comparators/partial_greater.h
@@ -32,7 +32,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a weak order is also a partial order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto partial_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_greater(lhs, rhs)))
             -> decltype(cppsort::weak_greater(lhs, rhs))
diff --git a/include/cpp-sort/comparators/partial_less.h b/include/cpp-sort/comparators/partial_less.h
index 7bebbaf..e7e939b 100644
--- a/include/cpp-sort/comparators/partial_less.h
+++ b/include/cpp-sort/comparators/partial_less.h
@@ -32,7 +32,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a weak order is also a partial order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto partial_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_less(lhs, rhs)))
             -> decltype(cppsort::weak_less(lhs, rhs))
diff --git a/include/cpp-sort/comparators/weak_greater.h b/include/cpp-sort/comparators/weak_greater.h
index 00ed693..72b6ac3 100644
--- a/include/cpp-sort/comparators/weak_greater.h
+++ b/include/cpp-sort/comparators/weak_greater.h
@@ -40,7 +40,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a total order is also a weak order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto weak_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_greater(lhs, rhs)))
             -> decltype(cppsort::total_greater(lhs, rhs))
diff --git a/include/cpp-sort/comparators/weak_less.h b/include/cpp-sort/comparators/weak_less.h
index f4ecda3..a24d77f 100644
--- a/include/cpp-sort/comparators/weak_less.h
+++ b/include/cpp-sort/comparators/weak_less.h
@@ -40,7 +40,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a total order is also a weak order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto weak_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_less(lhs, rhs)))
             -> decltype(cppsort::total_less(lhs, rhs))
-- 
2.43.0


From 2a0b9c1c00bb3c98ad4a8a9177421bfac81c7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 19/40] fix: vergesort merged runs of size one into the wrong
 place

---
 include/cpp-sort/detail/vergesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 8671b5a..9144953 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -67,7 +67,7 @@ namespace verge
                     auto&& target = proj(*begin);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
-                        detail::rotate_left(first, insert_it);
+                        detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-- 
2.43.0


From 4e4eb486da19d24f0e085df2efcd749b18fc7849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 20/40] fix: hybrid_adapter could not be nested in another
 hybrid_adapter with stateful sorters

---
 include/cpp-sort/adapters/hybrid_adapter.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/adapters/hybrid_adapter.h b/include/cpp-sort/adapters/hybrid_adapter.h
index 0a88d90..beb1fb3 100644
--- a/include/cpp-sort/adapters/hybrid_adapter.h
+++ b/include/cpp-sort/adapters/hybrid_adapter.h
@@ -193,11 +193,13 @@ namespace cppsort
             {
                 using sorter_t = pack_element<N, Sorters...>;
 
-                return hybrid_adapter_storage_leaf<
+                using leaf_t = hybrid_adapter_storage_leaf<
                     sizeof...(Sorters) * iterator_category_value<iterator_category<sorter_t>>
                     + sizeof...(Indices) - N - 1,
                     sorter_t
-                >::get();
+                >;
+
+                return std::move(*this).leaf_t::get();
             }
 
             template<std::size_t N>
@@ -206,11 +208,13 @@ namespace cppsort
             {
                 using sorter_t = pack_element<N, Sorters...>;
 
-                return hybrid_adapter_storage_leaf<
+                using leaf_t = hybrid_adapter_storage_leaf<
                     sizeof...(Sorters) * iterator_category_value<iterator_category<sorter_t>>
                     + sizeof...(Indices) - N - 1,
                     sorter_t
-                >::get();
+                >;
+
+                return std::move(*this).leaf_t::get();
             }
         };
 
@@ -366,7 +370,7 @@ namespace cppsort
                                                         std::index_sequence<Indices...>)
                 -> decltype(auto)
             {
-                return std::forward_as_tuple(value.template get<Indices>()...);
+                return std::forward_as_tuple(std::move(value).template get<Indices>()...);
             }
 
             template<typename... Args>
-- 
2.43.0


From 61b66696d5dae480d0ebe249658e8ac1f1e4106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 21/40] fix: self_sort_adapter rejected a list and a projection

---
 include/cpp-sort/adapters/self_sort_adapter.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cpp-sort/adapters/self_sort_adapter.h b/include/cpp-sort/adapters/self_sort_adapter.h
index 402539a..47f7649 100644
--- a/include/cpp-sort/adapters/self_sort_adapter.h
+++ b/include/cpp-sort/adapters/self_sort_adapter.h
@@ -40,6 +40,17 @@ namespace cppsort
         constexpr bool has_sort_method
             = is_detected_v<has_sort_method_t, Iterable, Args...>;
 
+        // std::list::sort and std::forward_list::sort accept anything but
+        // only work with comparison functions, not with projections
+
+        template<typename T, typename Allocator, typename Function>
+        constexpr bool has_sort_method<std::list<T, Allocator>&, Function>
+            = not is_projection_v<Function, std::list<T, Allocator>&>;
+
+        template<typename T, typename Allocator, typename Function>
+        constexpr bool has_sort_method<std::forward_list<T, Allocator>&, Function>
+            = not is_projection_v<Function, std::forward_list<T, Allocator>&>;
+
         template<
             typename Iterable,
             typename... Args
-- 
2.43.0


From c9a41362e9e602473206d298bcfca0c80bbc52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 22/40] fix: mel_sorter used a default allocator for the nodes
 of container-aware sorts

---
 include/cpp-sort/detail/container_aware/mel_sort.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/mel_sort.h b/include/cpp-sort/detail/container_aware/mel_sort.h
index 1edbbc0..005be5d 100644
--- a/include/cpp-sort/detail/container_aware/mel_sort.h
+++ b/include/cpp-sort/detail/container_aware/mel_sort.h
@@ -41,7 +41,7 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<std::list<Args...>> lists;
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().splice(lists.back().begin(), collection, collection.begin());
 
             ////////////////////////////////////////////////////////////
@@ -68,7 +68,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().splice(lists.back().begin(), collection, collection.begin());
                 }
             }
@@ -115,8 +115,8 @@ namespace cppsort
             // to implement melsort for forward iterators
             struct flist
             {
-                flist():
-                    list(),
+                explicit flist(const typename std::forward_list<Args...>::allocator_type& alloc):
+                    list(alloc),
                     last(list.begin())
                 {}
 
@@ -126,7 +126,7 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<flist> lists;
-            lists.emplace_back();
+            lists.emplace_back(collection.get_allocator());
             lists.back().list.splice_after(lists.back().list.before_begin(),
                                            collection, collection.before_begin());
             lists.back().last = lists.back().list.begin();
@@ -158,7 +158,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().list.splice_after(lists.back().list.before_begin(),
                                                    collection, collection.before_begin());
                     lists.back().last = lists.back().list.begin();
-- 
2.43.0


From f74e6d087b67ee25e02b96c1682558cb3b6f58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 23/40] fix: container-aware merge sort was not stable

---
 .../detail/container_aware/merge_sort.h       | 32 +++++++++----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 5bf3c75..0bfab93 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -33,17 +33,16 @@ namespace cppsort
         {
             if (collection.size() < 2) return;
 
-            // Extract left part
-            auto first = collection.begin();
-            auto middle = std::next(first, collection.size() / 2);
-            std::list<Args...> left(collection.get_allocator());
-            left.splice(left.begin(), collection, first, middle);
+            // Extract right part
+            auto middle = std::next(collection.begin(), collection.size() / 2);
+            std::list<Args...> right(collection.get_allocator());
+            right.splice(right.begin(), collection, middle, collection.end());
 
             // Recursively sort, then merge
-            list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            list_merge_sort(right, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
+                                                                       std::move(projection)));
         }
 
         template<typename Compare, typename Projection,
@@ -54,17 +53,16 @@ namespace cppsort
         {
             if (size < 2) return;
 
-            // Extract left part
-            auto first = collection.before_begin();
-            auto middle = std::next(first, size / 2 + 1);
-            std::forward_list<Args...> left(collection.get_allocator());
-            left.splice_after(left.before_begin(), collection, first, middle);
+            // Extract right part
+            auto middle = std::next(collection.before_begin(), size / 2);
+            std::forward_list<Args...> right(collection.get_allocator());
+            right.splice_after(right.before_begin(), collection, middle, collection.end());
 
             // Recursively sort, then merge
-            flist_merge_sort(left, size / 2, compare, projection);
-            flist_merge_sort(collection, size - size / 2, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            flist_merge_sort(collection, size / 2, compare, projection);
+            flist_merge_sort(right, size - size / 2, compare, projection);
+            collection.merge(std::move(right), make_projection_compare(std::move(compare),
+                                                                       std::move(projection)));
         }
     }
 
-- 
2.43.0


From 64e67574a12489462e787d47dd4fa7f1eb3c92e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 24/40] fix: metric could not be assigned from a metric of
 another type

---
 include/cpp-sort/utility/metrics_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 4963c4b..50b7646 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -91,7 +91,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, const U&>::value)
                 -> metric&
             {
-                _value = other._value;
+                _value = other.value();
                 return *this;
             }
 
@@ -100,7 +100,7 @@ namespace utility
                 noexcept(std::is_nothrow_assignable<T&, U>::value)
                 -> metric&
             {
-                _value = std::move(other._value);
+                _value = std::move(other).value();
                 return *this;
             }
 
-- 
2.43.0


From 0da47d8544d8d7706e9fbac3f666c26abf976002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 25/40] fix: metrics could neither be copied from a non-const
 object nor deduced

---
 include/cpp-sort/utility/metrics_tools.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 50b7646..f28d60e 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -258,7 +258,12 @@ namespace utility
             metrics(const metrics&) = default;
             metrics(metrics&&) = default;
 
-            template<typename... Args>
+            template<
+                typename... Args,
+                typename = cppsort::detail::enable_if_t<cppsort::detail::conjunction<
+                    std::is_constructible<metric<TT, Tags>, Args&&>...
+                >::value>
+            >
             constexpr explicit metrics(Args&&... args):
                 metrics_(std::forward<Args>(args)...)
             {}
@@ -331,6 +336,12 @@ namespace utility
                 return std::get<Idx>(std::move(mm).metrics_);
             }
     };
+
+#ifdef __cpp_deduction_guides
+    template<typename... TT, typename... Tags>
+    metrics(metric<TT, Tags>...)
+        -> metrics<metric<TT, Tags>...>;
+#endif
 }}
 
 #endif // CPPSORT_UTILITY_METRICS_TOOLS_H_
-- 
2.43.0


From 1c2a70c5201081c16174240892fe4269b5b918f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 26/40] fix: sorted_indices rejected projections that return by
 value

---
 include/cpp-sort/utility/sorted_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 7b04182..1053f0c 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -69,7 +69,7 @@ namespace utility
 
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> auto& {
+                            [&first, &proj](difference_type index) -> decltype(auto) {
                                 return proj(first[index]);
                             });
 
-- 
2.43.0


From 8da5df7d18ba3b55f627006c3df4018653f3ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 27/40] fix: is_stable promised too much for adapters that sort
 something else than the range they are given

---
 include/cpp-sort/adapters/indirect_adapter.h  |  3 +-
 .../cpp-sort/adapters/out_of_place_adapter.h  |  3 +-
 include/cpp-sort/adapters/schwartz_adapter.h  | 18 +++-
 include/cpp-sort/detail/is_stable_on.h        | 87 +++++++++++++++++++
 include/cpp-sort/metrics/moves.h              |  3 +-
 include/cpp-sort/utility/sorted_iterators.h   |  3 +-
 6 files changed, 112 insertions(+), 5 deletions(-)
 create mode 100644 include/cpp-sort/detail/is_stable_on.h

diff --git a/include/cpp-sort/adapters/indirect_adapter.h b/include/cpp-sort/adapters/indirect_adapter.h
index a08fd0e..d9db3a0 100644
--- a/include/cpp-sort/adapters/indirect_adapter.h
+++ b/include/cpp-sort/adapters/indirect_adapter.h
@@ -22,6 +22,7 @@
 #include "../detail/checkers.h"
 #include "../detail/immovable_vector.h"
 #include "../detail/indiesort.h"
+#include "../detail/is_stable_on.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/scope_exit.h"
 #include "../detail/type_traits.h"
@@ -216,7 +217,7 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<indirect_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::is_stable_on_buffer<Sorter, Args...>
     {};
 }
 
diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index b09d755..d6feb13 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -18,6 +18,7 @@
 #include <cpp-sort/utility/size.h>
 #include "../detail/checkers.h"
 #include "../detail/immovable_vector.h"
+#include "../detail/is_stable_on.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/scope_exit.h"
 #include "../detail/type_traits.h"
@@ -108,7 +109,7 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<out_of_place_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::is_stable_on_buffer<Sorter, Args...>
     {};
 }
 
diff --git a/include/cpp-sort/adapters/schwartz_adapter.h b/include/cpp-sort/adapters/schwartz_adapter.h
index a0685ba..a83ee42 100644
--- a/include/cpp-sort/adapters/schwartz_adapter.h
+++ b/include/cpp-sort/adapters/schwartz_adapter.h
@@ -24,6 +24,7 @@
 #include "../detail/checkers.h"
 #include "../detail/config.h"
 #include "../detail/immovable_vector.h"
+#include "../detail/is_stable_on.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/type_traits.h"
 
@@ -242,7 +243,22 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<schwartz_adapter<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::conjunction<
+            // No projection: everything is forwarded to the adapted sorter
+            is_stable<Sorter(Args...)>,
+            // Projection: the adapted sorter sorts a buffer
+            detail::is_stable_on_buffer<Sorter, Args...>
+        >
+    {};
+
+    template<typename Sorter, typename Iterable>
+    struct is_stable<schwartz_adapter<Sorter>(Iterable)>:
+        is_stable<Sorter(Iterable)>
+    {};
+
+    template<typename Sorter, typename Iterator>
+    struct is_stable<schwartz_adapter<Sorter>(Iterator, Iterator)>:
+        is_stable<Sorter(Iterator, Iterator)>
     {};
 }
 
diff --git a/include/cpp-sort/detail/is_stable_on.h b/include/cpp-sort/detail/is_stable_on.h
new file mode 100644
index 0000000..fb0cd14
--- /dev/null
+++ b/include/cpp-sort/detail/is_stable_on.h
@@ -0,0 +1,87 @@
+/*
+ * Copyright (c) 2025 Morwenn
+ * SPDX-License-Identifier: MIT
+ */
+#ifndef CPPSORT_DETAIL_IS_STABLE_ON_H_
+#define CPPSORT_DETAIL_IS_STABLE_ON_H_
+
+////////////////////////////////////////////////////////////
+// Headers
+////////////////////////////////////////////////////////////
+#include <iterator>
+#include <utility>
+#include <cpp-sort/sorter_traits.h>
+#include "iterator_traits.h"
+#include "type_traits.h"
+
+namespace cppsort
+{
+namespace detail
+{
+    ////////////////////////////////////////////////////////////
+    // Some adapters do not pass the range they are given to the
+    // adapted sorter, but always pass it a pair of iterators,
+    // sometimes to another sequence. The following traits tell
+    // whether the adapted sorter is stable for that pair.
+
+    template<typename Iterator>
+    using same_iterator_t = Iterator;
+
+    template<typename Iterator>
+    using value_pointer_t = value_type_t<Iterator>*;
+
+    template<
+        typename AlwaysVoid,
+        template<typename> class IteratorFor,
+        typename Sorter,
+        typename... Args
+    >
+    struct is_stable_on_impl:
+        is_stable<Sorter(Args...)>
+    {};
+
+    template<
+        template<typename> class IteratorFor,
+        typename Sorter,
+        typename Iterator,
+        typename... Args
+    >
+    struct is_stable_on_impl<
+        void_t<iterator_category_t<remove_cvref_t<Iterator>>>,
+        IteratorFor, Sorter, Iterator, Iterator, Args...
+    >:
+        is_stable<Sorter(
+            IteratorFor<remove_cvref_t<Iterator>>,
+            IteratorFor<remove_cvref_t<Iterator>>,
+            Args...
+        )>
+    {};
+
+    template<
+        template<typename> class IteratorFor,
+        typename Sorter,
+        typename Iterable,
+        typename... Args
+    >
+    struct is_stable_on_impl<
+        void_t<decltype(std::begin(std::declval<Iterable&>()))>,
+        IteratorFor, Sorter, Iterable, Args...
+    >:
+        is_stable<Sorter(
+            IteratorFor<remove_cvref_t<decltype(std::begin(std::declval<Iterable&>()))>>,
+            IteratorFor<remove_cvref_t<decltype(std::begin(std::declval<Iterable&>()))>>,
+            Args...
+        )>
+    {};
+
+    // Iterators of the range itself
+    template<typename Sorter, typename... Args>
+    using is_stable_on_iterators = is_stable_on_impl<void, same_iterator_t, Sorter, Args...>;
+
+    // Random-access iterators to a copy of the elements, or
+    // to something standing for the elements
+    template<typename Sorter, typename... Args>
+    using is_stable_on_buffer = is_stable_on_impl<void, value_pointer_t, Sorter, Args...>;
+}}
+
+#endif // CPPSORT_DETAIL_IS_STABLE_ON_H_
diff --git a/include/cpp-sort/metrics/moves.h b/include/cpp-sort/metrics/moves.h
index 8c47501..f9c02b6 100644
--- a/include/cpp-sort/metrics/moves.h
+++ b/include/cpp-sort/metrics/moves.h
@@ -20,6 +20,7 @@
 #include "../detail/checkers.h"
 #include "../detail/fake_category_iterator.h"
 #include "../detail/immovable_vector.h"
+#include "../detail/is_stable_on.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/type_traits.h"
 
@@ -196,7 +197,7 @@ namespace cppsort
 
     template<typename Sorter, typename CountType, typename... Args>
     struct is_stable<metrics::moves<Sorter, CountType>(Args...)>:
-        is_stable<Sorter(Args...)>
+        detail::is_stable_on_iterators<Sorter, Args...>
     {};
 }
 
diff --git a/include/cpp-sort/utility/sorted_iterators.h b/include/cpp-sort/utility/sorted_iterators.h
index abed120..c6fc8e3 100644
--- a/include/cpp-sort/utility/sorted_iterators.h
+++ b/include/cpp-sort/utility/sorted_iterators.h
@@ -19,6 +19,7 @@
 #include <cpp-sort/utility/functional.h>
 #include <cpp-sort/utility/size.h>
 #include "../detail/checkers.h"
+#include "../detail/is_stable_on.h"
 #include "../detail/iterator_traits.h"
 #include "../detail/type_traits.h"
 
@@ -136,7 +137,7 @@ namespace cppsort
 
     template<typename Sorter, typename... Args>
     struct is_stable<cppsort::utility::sorted_iterators<Sorter>(Args...)>:
-        is_stable<Sorter(Args...)>
+        cppsort::detail::is_stable_on_buffer<Sorter, Args...>
     {};
 }
 
-- 
2.43.0


From 996373e30a71a28ab52ec69f3223c80025772b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 28/40] fix: refine comparators and projections for the value
 type instead of a reference to it

---
 include/cpp-sort/refined.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/refined.h b/include/cpp-sort/refined.h
index bb8d512..5bc1fb1 100644
--- a/include/cpp-sort/refined.h
+++ b/include/cpp-sort/refined.h
@@ -35,19 +35,19 @@ namespace cppsort
     template<
         typename T,
         typename Function,
-        typename = detail::enable_if_t<detail::has_refine_method<Function, T>>
+        typename = detail::enable_if_t<detail::has_refine_method<Function, std::decay_t<T>>>
     >
     auto refined(Function func)
-        noexcept(noexcept(func.template refine<T>()))
-        -> decltype(func.template refine<T>())
+        noexcept(noexcept(func.template refine<std::decay_t<T>>()))
+        -> decltype(func.template refine<std::decay_t<T>>())
     {
-        return func.template refine<T>();
+        return func.template refine<std::decay_t<T>>();
     }
 
     template<
         typename T,
         typename Function,
-        typename = detail::enable_if_t<not detail::has_refine_method<Function, T>>
+        typename = detail::enable_if_t<not detail::has_refine_method<Function, std::decay_t<T>>>
     >
     constexpr auto refined(Function&& func) noexcept
         -> Function&&
-- 
2.43.0


From 33641d96551a29c8e01471b73985aacf9480d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 29/40] fix: accept std::ranges::less and utility::identity
 together in sorter_facade

---
 include/cpp-sort/sorter_facade.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/cpp-sort/sorter_facade.h b/include/cpp-sort/sorter_facade.h
index f18c2b2..bef59df 100644
--- a/include/cpp-sort/sorter_facade.h
+++ b/include/cpp-sort/sorter_facade.h
@@ -815,6 +815,36 @@ namespace cppsort
         }
 
 #ifdef __cpp_lib_ranges
+        template<typename Iterator>
+        constexpr auto operator()(Iterator first, Iterator last, std::ranges::less, utility::identity) const
+            -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort_iterator<
+                    Sorter,
+                    Iterator,
+                    std::ranges::less,
+                    utility::identity
+                >::value,
+                decltype(Sorter::operator()(std::move(first), std::move(last)))
+            >
+        {
+            return Sorter::operator()(std::move(first), std::move(last));
+        }
+
+        template<typename Iterable>
+        constexpr auto operator()(Iterable&& iterable, std::ranges::less, utility::identity) const
+            -> detail::enable_if_t<
+                not detail::has_comparison_projection_sort_iterator<
+                    Sorter,
+                    decltype(std::begin(iterable)),
+                    std::ranges::less,
+                    utility::identity
+                >::value,
+                decltype(operator()(std::forward<Iterable>(iterable)))
+            >
+        {
+            return operator()(std::forward<Iterable>(iterable));
+        }
+
         template<typename Iterator>
         constexpr auto operator()(Iterator first, Iterator last, std::ranges::less, std::identity) const
             -> detail::enable_if_t<
-- 
2.43.0


From 8951833bf343a3d33ea382bccb0555699b2a36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 30/40] fix: let swap_index_pairs_force_unroll accept empty
 networks without comparator

---
 include/cpp-sort/utility/sorting_networks.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/sorting_networks.h b/include/cpp-sort/utility/sorting_networks.h
index cc79f36..f10cf7a 100644
--- a/include/cpp-sort/utility/sorting_networks.h
+++ b/include/cpp-sort/utility/sorting_networks.h
@@ -118,9 +118,14 @@ namespace utility
         detail::index_pair_swapper_force_unroll<0>::do_it(first, index_pairs, std::move(compare), std::move(projection));
     }
 
-    template<typename RandomAccessIterator, typename IndexType, typename Compare, typename Projection>
+    template<
+        typename RandomAccessIterator,
+        typename IndexType,
+        typename Compare = std::less<>,
+        typename Projection = utility::identity
+    >
     auto swap_index_pairs_force_unroll(RandomAccessIterator, const std::array<index_pair<IndexType>, 0>&,
-                                       Compare, Projection)
+                                       Compare={}, Projection={})
         -> void
     {}
 }}
-- 
2.43.0


From 34ed114cd2047a3093add8b9f87efd0af6667d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 31/40] fix: use the iter_move and iter_swap of the underlying
 iterator through reverse_iterator and move_iterator

---
 include/cpp-sort/utility/iter_move.h | 29 ++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index ed1d2ac..cbcdfdd 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -59,6 +59,27 @@ namespace cppsort
         template<typename Iterator>
         constexpr bool has_iter_swap_v = detail::is_invocable_v<call_iter_swap, Iterator, Iterator>;
 
+        ////////////////////////////////////////////////////////////
+        // Check whether the standard library already provides
+        // iter_move and iter_swap for the given iterator adaptor:
+        // unlike the checks above, these ones do not care whether
+        // the underlying iterator has its own iter_move or iter_swap
+
+        template<typename Adaptor>
+        using adl_iter_move_t = decltype(iter_move(std::declval<const Adaptor&>()));
+
+        template<typename Adaptor>
+        constexpr bool has_adaptor_iter_move_v = is_detected_v<adl_iter_move_t, Adaptor>;
+
+#ifdef __cpp_lib_ranges
+        template<typename Adaptor>
+        constexpr bool has_adaptor_iter_swap_v
+            = std::indirectly_swappable<typename Adaptor::iterator_type>;
+#else
+        template<typename Adaptor>
+        constexpr bool has_adaptor_iter_swap_v = false;
+#endif
+
         ////////////////////////////////////////////////////////////
         // Result type of a non-specialized iter_move call
 
@@ -123,7 +144,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_adaptor_iter_move_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_move(const std::reverse_iterator<Iterator>& it)
@@ -135,7 +156,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_adaptor_iter_swap_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_swap(std::reverse_iterator<Iterator> lhs, std::reverse_iterator<Iterator> rhs)
@@ -150,7 +171,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_adaptor_iter_move_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_move(const std::move_iterator<Iterator>& it)
@@ -162,7 +183,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_adaptor_iter_swap_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_swap(std::move_iterator<Iterator> lhs, std::move_iterator<Iterator> rhs)
-- 
2.43.0


From ee5824c8279f05972860ff56d1b05e3603556908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 32/40] fix: reverse ranges with iter_swap in spin_sorter

---
 include/cpp-sort/detail/spinsort.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index e68abe4..a95c863 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -37,7 +37,7 @@
 #include "iterator_traits.h"
 #include "memory.h"
 #include "move.h"
-#include "swap_ranges.h"
+#include "reverse.h"
 #include "type_traits.h"
 #include "upper_bound.h"
 
@@ -168,9 +168,7 @@ namespace detail
             }
 
             // reverse the elements between first and it1
-            auto nreverse = it - rng_data.first;
-            auto mid = rng_data.first + nreverse / 2;
-            detail::swap_ranges_overlap(rng_data.first, mid, std::make_reverse_iterator(it));
+            detail::reverse(rng_data.first, it);
 
             // insert the elements between it1 and last
             if (it != rng_data.last) {
-- 
2.43.0


From 54841f9d1ad5ff661d5dcc6c073ab15bcd1e5a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 33/40] fix: move elements with iter_move in associate_iterator

---
 include/cpp-sort/detail/associate_iterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 2d70e74..0b1512b 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -67,7 +67,8 @@ namespace detail
         auto operator=(association&& other) noexcept
             -> association&
         {
-            *it = std::move(*other.it);
+            using utility::iter_move;
+            *it = iter_move(other.it);
             data = std::move(other.data);
             return *this;
         }
@@ -346,8 +347,9 @@ namespace detail
                     typename value_type_t<Iterator>::data_type
                 >
             {
+                using utility::iter_move;
                 return {
-                    std::move(*(it->it)),
+                    iter_move(it->it),
                     std::move(it->data)
                 };
             }
-- 
2.43.0


From 2c957dff6e002e52d69a3265da168fff5228f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 34/40] fix: do not lose an element in grail_sorter with a
 buffer of a single element

---
 include/cpp-sort/detail/grail_sort.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 834d418..0a77a38 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -477,7 +477,9 @@ namespace grail
         }
 
         difference_type h;
-        if (kbuf) {
+        // The first pass moves the elements two positions to the left,
+        // it can't be performed with a buffer of a single element
+        if (kbuf > 1) {
             detail::move(first - kbuf, first, extbuf);
             for (difference_type m = 1 ; m < size ; m += 2) {
                 difference_type u = 0;
-- 
2.43.0


From 88a8c4dd335b3adc0ed341fd231a1e54073ef24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 35/40] fix: do not compute the size of a buffer for
 collections that need no sorting

---
 include/cpp-sort/detail/grail_sort.h | 6 +++++-
 include/cpp-sort/detail/wiki_sort.h  | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 0a77a38..ab7853b 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -747,8 +747,12 @@ namespace grail
                     Compare compare, Projection projection)
         -> void
     {
-        // Allocate temporary buffer
         auto size = last - first;
+        if (size < 2) {
+            return;
+        }
+
+        // Allocate temporary buffer
         typename BufferProvider::template buffer<rvalue_type_t<RandomAccessIterator>> buffer(size);
 
         using compare_t = std::remove_reference_t<decltype(utility::as_function(compare))>;
diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 8197b1f..5fdcca5 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -935,11 +935,16 @@ namespace detail
                    Compare compare, Projection projection)
         -> void
     {
+        auto size = last - first;
+        if (size < 2) {
+            return;
+        }
+
         // use a small cache to speed up some of the operations
         // just keep in mind that making it too small ruins the point (nothing will fit into it),
         // and making it too large also ruins the point (so much for "low memory"!)
         using rvalue_type = rvalue_type_t<RandomAccessIterator>;
-        typename BufferProvider::template buffer<rvalue_type> cache(last - first);
+        typename BufferProvider::template buffer<rvalue_type> cache(size);
 
         Wiki::sort(std::move(first), std::move(last),
                    cache.begin(), cache.size(),
-- 
2.43.0


From c0a8c3ee5a7f918b45b6796ec0b7e0cefbbdbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 36/40] fix: keep proxy references alive while their projection
 is used

---
 .../cpp-sort/detail/adaptive_quickselect.h    |  9 ++++---
 include/cpp-sort/detail/cartesian_tree_sort.h |  3 ++-
 .../detail/front_inserter/inserter10.h        |  3 ++-
 .../detail/front_inserter/inserter11.h        |  3 ++-
 .../detail/front_inserter/inserter3.h         |  3 ++-
 .../detail/front_inserter/inserter4.h         |  3 ++-
 .../detail/front_inserter/inserter5.h         |  3 ++-
 .../detail/front_inserter/inserter6.h         |  3 ++-
 .../detail/front_inserter/inserter7.h         |  3 ++-
 .../detail/front_inserter/inserter8.h         |  3 ++-
 .../detail/front_inserter/inserter9.h         |  3 ++-
 include/cpp-sort/detail/grail_sort.h          |  3 ++-
 include/cpp-sort/detail/introselect.h         |  6 +++--
 include/cpp-sort/detail/melsort.h             |  3 ++-
 include/cpp-sort/detail/merge_sort.h          |  6 +++--
 include/cpp-sort/detail/quick_merge_sort.h    |  3 ++-
 include/cpp-sort/detail/quicksort.h           |  6 +++--
 include/cpp-sort/detail/slabsort.h            | 24 ++++++++++++-------
 include/cpp-sort/detail/splaysort.h           |  3 ++-
 include/cpp-sort/detail/vergesort.h           |  6 +++--
 20 files changed, 66 insertions(+), 33 deletions(-)

diff --git a/include/cpp-sort/detail/adaptive_quickselect.h b/include/cpp-sort/detail/adaptive_quickselect.h
index 8668499..3b88ae1 100644
--- a/include/cpp-sort/detail/adaptive_quickselect.h
+++ b/include/cpp-sort/detail/adaptive_quickselect.h
@@ -45,7 +45,8 @@ namespace detail
 
             CPPSORT_ASSERT(k < length);
             iter_swap(r, r + k); // Move pivot out of the way
-            auto&& pivot_proj = proj(*r);
+            auto&& pivot_ref = *r;
+            auto&& pivot_proj = proj(pivot_ref);
             auto pivot_pos = detail::partition(r, r + length, [&](auto&& elem) {
                 return not comp(pivot_proj, proj(elem));
             });
@@ -173,7 +174,8 @@ namespace detail
             CPPSORT_ASSERT(lo > 0 && lo <= pivot);
             difference_type_t<RandomAccessIterator> left = 0;
             const auto oldPivot = pivot;
-            auto&& old_pivot_proj = proj(r[oldPivot]);
+            auto&& old_pivot_ref = r[oldPivot];
+            auto&& old_pivot_proj = proj(old_pivot_ref);
             for (; lo < pivot ; ++left) {
                 if (left == lo) {
                     iter_swap(r + oldPivot, r + pivot);
@@ -218,7 +220,8 @@ namespace detail
             difference_type_t<RandomAccessIterator> pivot = 0;
             CPPSORT_ASSERT(pivot <= hi);
             CPPSORT_ASSERT(hi <= rite);
-            auto&& pivot_proj = proj(r[0]);
+            auto&& pivot_ref = r[0];
+            auto&& pivot_proj = proj(pivot_ref);
 
             // First loop: spend r[pivot .. hi]
             for (; pivot < hi ; --rite) {
diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 2f273ca..c5383ea 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -58,7 +58,8 @@ namespace detail
                 ++first;
 
                 for (; first != last ; ++first) {
-                    auto&& proj_value = proj(*first);
+                    auto&& elem = *first;
+                    auto&& proj_value = proj(elem);
                     node_type* new_parent = _find_insertion_parent(prev_node, proj_value, compare, projection);
                     if (new_parent == nullptr) {
                         root_ = buffer_.emplace_back(iter_move(first), nullptr, root_);
diff --git a/include/cpp-sort/detail/front_inserter/inserter10.h b/include/cpp-sort/detail/front_inserter/inserter10.h
index 3f44a3c..6fcf263 100644
--- a/include/cpp-sort/detail/front_inserter/inserter10.h
+++ b/include/cpp-sort/detail/front_inserter/inserter10.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[7u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter11.h b/include/cpp-sort/detail/front_inserter/inserter11.h
index 740e9c7..1537779 100644
--- a/include/cpp-sort/detail/front_inserter/inserter11.h
+++ b/include/cpp-sort/detail/front_inserter/inserter11.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[8u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter3.h b/include/cpp-sort/detail/front_inserter/inserter3.h
index 8fb1840..21d7295 100644
--- a/include/cpp-sort/detail/front_inserter/inserter3.h
+++ b/include/cpp-sort/detail/front_inserter/inserter3.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[1u]), proj0)) {
                 if (comp(proj(first[2u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter4.h b/include/cpp-sort/detail/front_inserter/inserter4.h
index c0be542..4c402ec 100644
--- a/include/cpp-sort/detail/front_inserter/inserter4.h
+++ b/include/cpp-sort/detail/front_inserter/inserter4.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter5.h b/include/cpp-sort/detail/front_inserter/inserter5.h
index 8caa078..5d4379a 100644
--- a/include/cpp-sort/detail/front_inserter/inserter5.h
+++ b/include/cpp-sort/detail/front_inserter/inserter5.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter6.h b/include/cpp-sort/detail/front_inserter/inserter6.h
index e154152..8f690bd 100644
--- a/include/cpp-sort/detail/front_inserter/inserter6.h
+++ b/include/cpp-sort/detail/front_inserter/inserter6.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[4u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter7.h b/include/cpp-sort/detail/front_inserter/inserter7.h
index b071342..f4f7768 100644
--- a/include/cpp-sort/detail/front_inserter/inserter7.h
+++ b/include/cpp-sort/detail/front_inserter/inserter7.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[5u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter8.h b/include/cpp-sort/detail/front_inserter/inserter8.h
index a54200d..66cc96e 100644
--- a/include/cpp-sort/detail/front_inserter/inserter8.h
+++ b/include/cpp-sort/detail/front_inserter/inserter8.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter9.h b/include/cpp-sort/detail/front_inserter/inserter9.h
index d85553d..e90a565 100644
--- a/include/cpp-sort/detail/front_inserter/inserter9.h
+++ b/include/cpp-sort/detail/front_inserter/inserter9.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& elem0 = first[0u];
+            auto&& proj0 = proj(elem0);
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index ab7853b..8061bee 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -391,7 +391,8 @@ namespace grail
     {
         using difference_type = difference_type_t<RandomAccessIterator>;
         auto&& proj = utility::as_function(projection);
-        auto&& midkey_proj = proj(*midkey);
+        auto&& midkey_ref = *midkey;
+        auto&& midkey_proj = proj(midkey_ref);
 
         if (nblock == 0) {
             auto l = arr + nblock2 * lblock;
diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index e33a530..90455f0 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -279,7 +279,8 @@ namespace detail
 
             // Put the pivot at position std::prev(last) and partition
             iter_swap(median_it, last_1);
-            auto&& pivot1 = proj(*last_1);
+            auto&& pivot1_ref = *last_1;
+            auto&& pivot1 = proj(pivot1_ref);
             auto middle1 = detail::partition(
                 first, last_1,
                 [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -287,7 +288,8 @@ namespace detail
 
             // Put the pivot in its final position and partition
             iter_swap(middle1, last_1);
-            auto&& pivot2 = proj(*middle1);
+            auto&& pivot2_ref = *middle1;
+            auto&& pivot2 = proj(pivot2_ref);
             auto middle2 = detail::partition(
                 std::next(middle1), last,
                 [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/melsort.h b/include/cpp-sort/detail/melsort.h
index aeefe25..f1e71ae 100644
--- a/include/cpp-sort/detail/melsort.h
+++ b/include/cpp-sort/detail/melsort.h
@@ -147,7 +147,8 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& elem = *it;
+            auto&& value = proj(elem);
 
             // The heads of the lists form an ascending collection while the heads
             // form a descending collection, plus the we have the guarantee that the
diff --git a/include/cpp-sort/detail/merge_sort.h b/include/cpp-sort/detail/merge_sort.h
index 90452ff..62a1e02 100644
--- a/include/cpp-sort/detail/merge_sort.h
+++ b/include/cpp-sort/detail/merge_sort.h
@@ -53,7 +53,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(middle_ref);
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
@@ -105,7 +106,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(middle_ref);
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quick_merge_sort.h b/include/cpp-sort/detail/quick_merge_sort.h
index 6609779..0db9b5a 100644
--- a/include/cpp-sort/detail/quick_merge_sort.h
+++ b/include/cpp-sort/detail/quick_merge_sort.h
@@ -110,7 +110,8 @@ namespace detail
         internal_mergesort(middle, last, size - size_left, buffer, compare, projection);
 
         // Reduce left partition even more if possible
-        auto&& mid_value = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& mid_value = proj(middle_ref);
         while (first != middle && not comp(mid_value, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quicksort.h b/include/cpp-sort/detail/quicksort.h
index 8afda65..025318b 100644
--- a/include/cpp-sort/detail/quicksort.h
+++ b/include/cpp-sort/detail/quicksort.h
@@ -81,7 +81,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot1 = proj(*last_1);
+        auto&& pivot1_ref = *last_1;
+        auto&& pivot1 = proj(pivot1_ref);
         auto middle1 = detail::partition(
             first, last_1,
             [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -89,7 +90,8 @@ namespace detail
 
         // Put the pivot in its final position and partition
         iter_swap(middle1, last_1);
-        auto&& pivot2 = proj(*middle1);
+        auto&& pivot2_ref = *middle1;
+        auto&& pivot2 = proj(pivot2_ref);
         auto middle2 = detail::partition(
             std::next(middle1), last,
             [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index f71c2d2..79656e7 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -112,7 +112,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot = proj(*last_1);
+        auto&& pivot_ref = *last_1;
+        auto&& pivot = proj(pivot_ref);
         auto middle = detail::stable_partition(
             first, last_1, size - 1,
             [&](auto&& elem) { return comp(proj(elem), pivot); }
@@ -152,15 +153,19 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& elem = *it;
+            auto&& value = proj(elem);
 
             auto& last_list = lists.back();
             if (not comp(value, proj(*std::prev(last_list.end()).base()->it))) {
                 // Element belongs to the tails (bigger elements)
                 auto insertion_point = detail::lower_bound(
-                    lists.begin(), std::prev(lists.end()), value, cppsort::flip(compare),
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*std::prev(list.end()).base()->it);
+                    lists.begin(), std::prev(lists.end()), value,
+                    [&comp, &proj](auto&& tail, auto&& val) {
+                        return comp(val, proj(tail));
+                    },
+                    [](auto& list) -> decltype(auto) {
+                        return *std::prev(list.end()).base()->it;
                     }
                 );
                 insertion_point->push_back([&it](node_type* node) {
@@ -169,9 +174,12 @@ namespace detail
             } else if (not comp(proj(*last_list.begin().base()->it), value)) {
                 // Element belongs to the heads (smaller elements)
                 auto insertion_point = detail::lower_bound(
-                    lists.begin(), std::prev(lists.end()), value, compare,
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*list.begin().base()->it);
+                    lists.begin(), std::prev(lists.end()), value,
+                    [&comp, &proj](auto&& head, auto&& val) {
+                        return comp(proj(head), val);
+                    },
+                    [](auto& list) -> decltype(auto) {
+                        return *list.begin().base()->it;
                     }
                 );
                 insertion_point->push_front([&it](node_type* node) {
diff --git a/include/cpp-sort/detail/splaysort.h b/include/cpp-sort/detail/splaysort.h
index c9defb1..d503465 100644
--- a/include/cpp-sort/detail/splaysort.h
+++ b/include/cpp-sort/detail/splaysort.h
@@ -210,7 +210,8 @@ namespace detail
                 auto&& comp = utility::as_function(compare);
                 auto&& proj = utility::as_function(projection);
 
-                auto&& value_proj = proj(*it);
+                auto&& elem = *it;
+                auto&& value_proj = proj(elem);
 
                 binary_tree_node_base* node = root();
                 CPPSORT_ASSERT(node != &sentinel_node_);
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 9144953..3e8471a 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -64,14 +64,16 @@ namespace verge
                 // Merge the runs, micro-optimize for size 1 because it can happen,
                 // and the generic inplace_merge algorithm cares not
                 if (it->size == 1) {
-                    auto&& target = proj(*begin);
+                    auto&& target_ref = *begin;
+                    auto&& target = proj(target_ref);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
                         detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-                    auto&& target = proj(*std::prev(next_it->end));
+                    auto&& target_ref = *std::prev(next_it->end);
+                    auto&& target = proj(target_ref);
                     if (comp(target, proj(*std::prev(it->end)))) {
                         auto insert_it = detail::upper_bound_n(begin, it->size, target, compare, projection);
                         detail::rotate_right(insert_it, next_it->end);
-- 
2.43.0


From 271ce2e50ab7af7b571d29faa64cf50204736c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 37/40] fix: do not walk the collection for every element in
 probe::exc

---
 include/cpp-sort/probes/exc.h | 55 ++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/include/cpp-sort/probes/exc.h b/include/cpp-sort/probes/exc.h
index 7930159..7ea8143 100644
--- a/include/cpp-sort/probes/exc.h
+++ b/include/cpp-sort/probes/exc.h
@@ -46,16 +46,20 @@ namespace probe
             ////////////////////////////////////////////////////////////
             // Indirectly sort the iterators
 
-            // Copy the iterators in a vector
-            cppsort::detail::immovable_vector<ForwardIterator> iterators(size);
+            // Copy the iterators in a vector, with their original position so that
+            // it can be recovered in constant time for any category of iterators
+            using entry = std::pair<ForwardIterator, difference_type>;
+            cppsort::detail::immovable_vector<entry> iterators(size);
+            difference_type pos = 0;
             for (auto it = first; it != last; ++it) {
-                iterators.emplace_back(it);
+                iterators.emplace_back(it, pos);
+                ++pos;
             }
 
             // Sort the iterators on pointed values
             cppsort::detail::pdqsort(
                 iterators.begin(), iterators.end(),
-                compare, utility::indirect{} | projection
+                compare, utility::as_projection(&entry::first) | utility::indirect{} | projection
             );
 
             ////////////////////////////////////////////////////////////
@@ -65,43 +69,42 @@ namespace probe
 
             // Element where the current cycle starts
             auto start = first;
+            difference_type start_pos = 0;
 
             difference_type cycles = 0;
             while (start != last) {
                 // Find the element to put in current's place
                 auto current = start;
-                auto next_pos = std::distance(first, current);
-                auto next = iterators[next_pos];
-                sorted[next_pos] = true;
+                auto next = iterators[start_pos].first;
+                auto next_pos = iterators[start_pos].second;
+                sorted[start_pos] = true;
 
                 // Process the current cycle
-                if (next != current) {
-                    while (next != start) {
-                        // If an element is in the place of another element that compares
-                        // equivalent, it means that this element was actually already in
-                        // a suitable place, so we count one more cycle as if it was an
-                        // already suitably placed element, this handles collections with
-                        // several elements which compare equivalent
-                        if (not comp(proj(*next), proj(*current)) &&
-                            not comp(proj(*current), proj(*next))) {
-                            ++cycles;
-                        }
-                        // Locate the next element of the cycle
-                        current = next;
-                        auto next_pos = std::distance(first, next);
-                        next = iterators[next_pos];
-                        sorted[next_pos] = true;
+                while (next_pos != start_pos) {
+                    // If an element is in the place of another element that compares
+                    // equivalent, it means that this element was actually already in
+                    // a suitable place, so we count one more cycle as if it was an
+                    // already suitably placed element, this handles collections with
+                    // several elements which compare equivalent
+                    if (not comp(proj(*next), proj(*current)) &&
+                        not comp(proj(*current), proj(*next))) {
+                        ++cycles;
                     }
+                    // Locate the next element of the cycle
+                    current = next;
+                    auto&& entry_pos = iterators[next_pos];
+                    sorted[next_pos] = true;
+                    next = entry_pos.first;
+                    next_pos = entry_pos.second;
                 }
 
                 ++cycles;
 
                 // Find the next cycle
-                auto&& sorted_it = sorted.begin() + std::distance(first, start);
                 do {
                     ++start;
-                    ++sorted_it;
-                } while (start != last && *sorted_it);
+                    ++start_pos;
+                } while (start != last && sorted[start_pos]);
             }
             return size - cycles;
         }
-- 
2.43.0


From 3c12fbdc78512df799ea23d37c4750bd658e0012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 38/40] fix: insert in place first in the container-aware
 insertion sort

---
 .../detail/container_aware/insertion_sort.h     | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/container_aware/insertion_sort.h b/include/cpp-sort/detail/container_aware/insertion_sort.h
index fec76a8..b7cfe8c 100644
--- a/include/cpp-sort/detail/container_aware/insertion_sort.h
+++ b/include/cpp-sort/detail/container_aware/insertion_sort.h
@@ -32,6 +32,7 @@ namespace cppsort
                                  Compare compare, Projection projection)
             -> void
         {
+            auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
 
             auto it = collection.begin();
@@ -43,6 +44,13 @@ namespace cppsort
 
             ++it;
             while (it != last) {
+                if (not comp(proj(*it), proj(*std::prev(it)))) {
+                    // The element is already in place
+                    ++it;
+                    ++size;
+                    continue;
+                }
+
                 auto insertion_point = upper_bound_n(collection.begin(), size, proj(*it),
                                                      compare, projection);
                 if (insertion_point == it) {
@@ -72,9 +80,16 @@ namespace cppsort
             typename std::forward_list<Args...>::difference_type size = 1;
 
             while (std::next(it) != last) {
+                auto&& value = proj(*std::next(it));
+                if (not comp(value, proj(*it))) {
+                    // The element is already in place
+                    ++it;
+                    ++size;
+                    continue;
+                }
+
                 // Binary search to find where to insert the value, we can't
                 // use upper_bound because of the specificities of forward_list
-                auto&& value = proj(*std::next(it));
                 auto insertion_point = collection.before_begin();
                 for (auto search_size = size ; search_size > 0 ;) {
                     auto search_it = std::next(insertion_point, half(search_size));
-- 
2.43.0


From 490e9355a7216c7a498f9b9c8dbeab20068ceca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 39/40] fix: insert the pending elements of
 merge_insertion_sorter in the right order

---
 .../cpp-sort/detail/merge_insertion_sort.h    | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/cpp-sort/detail/merge_insertion_sort.h b/include/cpp-sort/detail/merge_insertion_sort.h
index 984a2fe..1da5256 100644
--- a/include/cpp-sort/detail/merge_insertion_sort.h
+++ b/include/cpp-sort/detail/merge_insertion_sort.h
@@ -8,6 +8,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <iterator>
 #include <utility>
 #include <cpp-sort/utility/as_function.h>
@@ -338,10 +339,13 @@ namespace detail
         //                 = 2J(n)
         // By keeping track of powers of two and J(n), J(n+1) - J(n) can thus
         // be computed with two shifts and a subtraction.
-        for (typename list_t::difference_type pow2 = 1, jn = 0, dist = 2;
-             dist <= pend.end() - current_pend;
+        for (typename list_t::difference_type pow2 = 1, jn = 1, dist = 2;
+             current_pend != pend.end();
              pow2 *= 2, jn = pow2 - jn, dist = 2 * jn) {
 
+            // The last cycle might be incomplete
+            dist = std::min<typename list_t::difference_type>(dist, pend.end() - current_pend);
+
             auto it = current_it + dist * 2;
             auto pe = current_pend + dist;
 
@@ -362,19 +366,6 @@ namespace detail
             current_pend += dist;
         }
 
-        // If there are pend elements left, insert them into the main
-        // chain, the order of insertion does not matter so forward
-        // traversal is ok
-        while (current_pend != pend.end()) {
-            current_it += 2;
-            auto insertion_point = detail::upper_bound(
-                chain.begin(), *current_pend, proj(*current_it),
-                compare, utility::indirect{} | projection
-            );
-            chain.insert(insertion_point, current_it);
-            ++current_pend;
-        }
-
         ////////////////////////////////////////////////////////////
         // Move values in order to a cache then back to origin
 
-- 
2.43.0


From ffd79c79e08789d2ac13d04dd75322c70f34107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:26 +0000
Subject: [PATCH 40/40] fix: swap_if called itself forever with
 std::ranges::less and std::ranges::greater

---
 include/cpp-sort/detail/swap_if.h | 32 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index 64b2501..e5a7120 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -118,59 +118,59 @@ namespace detail
 
 #ifdef __cpp_lib_ranges
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::less comp, std::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::less, std::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::less comp, std::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::less, std::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::greater comp, std::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::greater, std::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::greater comp, std::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::greater, std::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 #endif
 
-- 
2.43.0

