From c921ccf47427e06b36c78e0166277125402a9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 01/24] fix: pass the smaller length to half_inplace_merge in
 forward recmerge

When merge_sort could only get a small buffer, recmerge can recurse with
n0 > n1 and then n0 <= buff_size; half_inplace_merge was told that n0
elements of the second run could be consumed unconditionally, reading
past the end of that run.
---
 include/cpp-sort/detail/recmerge_forward.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/recmerge_forward.h b/include/cpp-sort/detail/recmerge_forward.h
index 333711e..37b6e86 100644
--- a/include/cpp-sort/detail/recmerge_forward.h
+++ b/include/cpp-sort/detail/recmerge_forward.h
@@ -25,6 +25,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -116,7 +117,7 @@ namespace detail
 
             half_inplace_merge(
                 buffer, buff_ptr, f1, std::next(f1, n1), f0,
-                n0, std::move(compare), std::move(projection)
+                (std::min)(n0, n1), std::move(compare), std::move(projection)
             );
             return;
         }
-- 
2.43.0


From 94eb89424426d306339ccf378adac5c3cb10cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 02/24] fix: pass the smaller length to half_inplace_merge in
 spinsort merges

With an odd number of elements the first buffer can hold one element more
than the second range, in which case half_inplace_merge was told to
consume one element past the end of the second range.
---
 include/cpp-sort/detail/boost_common/util/merge.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/boost_common/util/merge.h b/include/cpp-sort/detail/boost_common/util/merge.h
index ce26079..ea3ac71 100644
--- a/include/cpp-sort/detail/boost_common/util/merge.h
+++ b/include/cpp-sort/detail/boost_common/util/merge.h
@@ -131,7 +131,9 @@ namespace util
         }
 
         cppsort::detail::half_inplace_merge(buf1, end_buf1, buf2, end_buf2, buf_out,
-                                            end_buf1 - buf1, compare, projection);
+                                            (std::min<difference_type_t<RandomAccessIterator2>>)(
+                                                end_buf1 - buf1, end_buf2 - buf2),
+                                            compare, projection);
         return end_buf2;
     }
 }}}}
-- 
2.43.0


From f52c26889428fbaf64ea5c138c87eb686852a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 03/24] fix: don't construct and destroy elements over the live
 cache of wiki_sort

The cache of wiki_sort is an array of already constructed objects, but
buffered_inplace_merge move-constructs new objects on top of them and
destroys them afterwards: the original objects were never destroyed, and
the buffer then destroyed the same objects a second time.
---
 include/cpp-sort/detail/wiki_sort.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 23fa5e7..e6b5895 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -492,8 +492,11 @@ namespace detail
                                 detail::rotate(A.start, A.end, B.end);
                             } else if (comp(proj(*B.start), proj(*std::prev(A.end)))) {
                                 // these two ranges weren't already in order, so we need to merge them
-                                buffered_inplace_merge(A.start, A.end, B.end, compare, projection,
-                                                       A.length(), B.length(), cache_begin);
+                                // (the cache already contains constructed objects, so move-assign to it)
+                                auto cache_end = detail::move(A.start, A.end, cache_begin);
+                                half_inplace_merge(cache_begin, cache_end, B.start, B.end, A.start,
+                                                   (std::min)(A.length(), B.length()),
+                                                   compare, projection);
                             }
                         }
                     }
-- 
2.43.0


From 5d1696caa5afa1d40118c5369a8dcca086e27e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 04/24] fix: keep fixed_size_list consistent when a merge
 comparison throws

merge() and merge_unsafe() only reset the other list when they were done,
so a throwing comparison or projection left the spliced nodes in both
lists and their values were destroyed twice.
---
 include/cpp-sort/detail/fixed_size_list.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 6ac8710..c766623 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -669,6 +669,11 @@ namespace detail
                             ++other_it;
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         fast_splice_(first, insert_begin, other_it);
+                        // Keep the other list consistent: the spliced nodes
+                        // must not be destroyed twice if a comparison or
+                        // a projection throws later
+                        other.sentinel_node_.next = other_it.base();
+                        other_it.base()->prev = &other.sentinel_node_;
                     } else {
                         ++first;
                     }
@@ -733,6 +738,8 @@ namespace detail
                         } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
                         first.base()->prev->next = insert_first.base();
                         insert_last.base()->next = first.base();
+                        // Keep the other list consistent, see merge()
+                        other.sentinel_node_.next = other_it.base();
                     } else {
                         ++first;
                     }
-- 
2.43.0


From 47dc58783dea39d6cf8cf42192cc58077c6c1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 05/24] fix: slab_sorter leaks elements when moving one throws

Encroaching lists of iterators were turned in place into lists of values:
when moving an element threw an exception, the values already moved to
the list being converted were never destroyed.
---
 include/cpp-sort/detail/fixed_size_list.h |  7 +++++++
 include/cpp-sort/detail/slabsort.h        | 12 +++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index c766623..219b6a2 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -592,6 +592,13 @@ namespace detail
                 insert_node_(sentinel_node_.next, std::forward<Callable>(setter));
             }
 
+            auto link_back(node_type* node) noexcept
+                -> void
+            {
+                // Add an extracted node at the end of the list
+                link_node_before_(node, &sentinel_node_);
+            }
+
             CPPSORT_ATTRIBUTE_NODISCARD
             auto extract(list_node_base* node) noexcept
                 -> node_type*
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index a647535..4296501 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -199,14 +199,20 @@ namespace detail
         // Reify encroaching lists
 
         for (auto& list : lists) {
-            // TODO: handle destruction when an exception is thrown during the loop
-            for (auto it = list.begin(), end = list.end() ; it != end ; ++it) {
-                auto node = it.base();
+            // Nodes are extracted from the list before their iterator is replaced
+            // with a value: if moving an element throws, the node without a value
+            // does not belong to any list, and both lists know how to destroy the
+            // contents of their own nodes
+            fixed_size_list<node_type> values(node_pool, destroy_node_contents<rvalue_type, node_type, &node_type::value>);
+            while (not list.is_empty()) {
+                auto node = list.extract_front();
                 auto value_it = node->it;
                 detail::destroy_at(&node->it);
                 ::new(&node->value) rvalue_type(iter_move(value_it));
+                values.link_back(node);
             }
             list.set_node_destructor(destroy_node_contents<rvalue_type, node_type, &node_type::value>);
+            list.splice(list.end(), values);
         }
 
         ////////////////////////////////////////////////////////////
-- 
2.43.0


From 5b6529418278e2b1f2914438695d44f4a846a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 06/24] fix: make the container-aware merge sort stable

list::merge takes equivalent elements from *this first, so merging the left
part into the right one reversed the order of equivalent elements while the
algorithm is documented to be stable.
---
 include/cpp-sort/detail/container_aware/merge_sort.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 5bf3c75..335168c 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -42,6 +42,8 @@ namespace cppsort
             // Recursively sort, then merge
             list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
+            // Merge the right part into the left one to keep the sort stable
+            collection.swap(left);
             collection.merge(std::move(left), make_projection_compare(std::move(compare),
                                                                       std::move(projection)));
         }
@@ -63,6 +65,8 @@ namespace cppsort
             // Recursively sort, then merge
             flist_merge_sort(left, size / 2, compare, projection);
             flist_merge_sort(collection, size - size / 2, compare, projection);
+            // Merge the right part into the left one to keep the sort stable
+            collection.swap(left);
             collection.merge(std::move(left), make_projection_compare(std::move(compare),
                                                                       std::move(projection)));
         }
-- 
2.43.0


From 5eb8c9c945afc86f1a2ca73ebc634020a06398dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 07/24] fix: value of probe::osc::max_for_size

The former formula (n * (n - 2) - 1) / 2 is only right when n is odd and
greater than one: {1, 3, 0, 2} has an oscillation of 4 but the maximum for
4 elements was 3. It was also negative for n == 1, and wrapped around for
unsigned types when n < 3.
---
 docs/Measures-of-presortedness.md | 2 +-
 include/cpp-sort/probes/osc.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/Measures-of-presortedness.md b/docs/Measures-of-presortedness.md
index 1be6f1b..5a55422 100644
--- a/docs/Measures-of-presortedness.md
+++ b/docs/Measures-of-presortedness.md
@@ -233,7 +233,7 @@ Computes the *Oscillation* measure described by C. Levcopoulos and O. Petersson
 
 When there isn't enough extra memory available, `probe::osc` falls back to an in-place O(n²) algorithm.
 
-`max_for_size`: (|*X*| * (|*X*| - 2) - 1) / 2 when the values in *X* are strongly oscillating.
+`max_for_size`: |*X*| * (|*X*| - 2) / 2 when the values in *X* are strongly oscillating.
 
 ***WARNING:** the O(n²) fallback of `probe::osc` is deprecated since version 1.12.0 and removed in version 2.0.0.*
 
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index afa170b..340957b 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -210,7 +210,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : (n * (n - 2) - 1) / 2;
+                return n < 3 ? 0 : n * (n - 2) / 2;
             }
         };
     }
-- 
2.43.0


From 2d6b684d8721f3c85988e0750febb8e786457714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 08/24] fix: make probe::block return 0 for sorted collections

The iterators were sorted with an unstable algorithm, which let sorted
collections with equivalent elements be reported as disordered.
---
 include/cpp-sort/probes/block.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/probes/block.h b/include/cpp-sort/probes/block.h
index e83fb26..a6248b6 100644
--- a/include/cpp-sort/probes/block.h
+++ b/include/cpp-sort/probes/block.h
@@ -19,7 +19,7 @@
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
-#include "../detail/pdqsort.h"
+#include "../detail/merge_sort.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -51,10 +51,13 @@ namespace probe
                 iterators.emplace_back(it);
             }
 
-            // Sort the iterators on pointed values
-            cppsort::detail::pdqsort(
-                iterators.begin(), iterators.end(),
-                compare, utility::indirect{} | projection
+            // Sort the iterators on pointed values, the sort has to be
+            // stable for sorted collections not to be considered as
+            // disordered when they contain equivalent elements
+            cppsort::detail::merge_sort(
+                iterators.begin(), iterators.end(), size,
+                compare, utility::indirect{} | projection,
+                std::random_access_iterator_tag{}
             );
 
             ////////////////////////////////////////////////////////////
-- 
2.43.0


From 85316072a831567b7d052734db000cf1412b143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 09/24] fix: signed overflow in counting_sort with extreme
 values

---
 include/cpp-sort/detail/counting_sort.h | 32 ++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 8c0b366..c5cce0a 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -9,6 +9,7 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <algorithm>
+#include <cstdint>
 #include <functional>
 #include <iterator>
 #include "immovable_vector.h"
@@ -19,6 +20,17 @@ namespace cppsort
 {
 namespace detail
 {
+    // Distance between two integers min <= max, computed with unsigned
+    // integers because max - min might overflow otherwise
+    template<typename DifferenceType, typename Integer>
+    constexpr auto integer_distance(Integer min, Integer max) noexcept
+        -> DifferenceType
+    {
+        return static_cast<DifferenceType>(
+            static_cast<std::uintmax_t>(max) - static_cast<std::uintmax_t>(min)
+        );
+    }
+
     template<typename ForwardIterator>
     auto counting_sort(ForwardIterator first, ForwardIterator last)
         -> void
@@ -30,7 +42,7 @@ namespace detail
 
         auto min = *info.min;
         auto max = *info.max;
-        difference_type value_range = max - min + 1;
+        auto value_range = integer_distance<difference_type>(min, max) + 1;
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -38,11 +50,15 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[integer_distance<difference_type>(min, *it)];
         }
 
         for (auto count: counts) {
-            first = std::fill_n(first, count, min++);
+            first = std::fill_n(first, count, min);
+            // Do not increment past the biggest value
+            if (min != max) {
+                ++min;
+            }
         }
     }
 
@@ -57,7 +73,7 @@ namespace detail
 
         auto min = *info.max;
         auto max = *info.min;
-        difference_type value_range = max - min + 1;
+        auto value_range = integer_distance<difference_type>(min, max) + 1;
 
         immovable_vector<difference_type> counts(value_range);
         for (difference_type n = 0; n < value_range; ++n) {
@@ -65,12 +81,16 @@ namespace detail
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[integer_distance<difference_type>(min, *it)];
         }
 
         for (auto rit = counts.end(); rit != counts.begin(); --rit) {
             auto count = *std::prev(rit);
-            first = std::fill_n(first, count, max--);
+            first = std::fill_n(first, count, max);
+            // Do not decrement past the smallest value
+            if (max != min) {
+                --max;
+            }
         }
     }
 }}
-- 
2.43.0


From 6cdb3d314ae55db7c668a1d491056f0de66d4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 10/24] fix: order of negative char values in ska_sorter

---
 include/cpp-sort/detail/ska_sort.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index a39bdc7..c12e866 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -56,7 +56,8 @@ namespace detail
     inline auto to_unsigned_or_bool(char c)
         -> unsigned char
     {
-        return static_cast<unsigned char>(c);
+        return static_cast<unsigned char>(c)
+             + (std::is_signed<char>::value ? 128 : 0);
     }
 
     inline auto to_unsigned_or_bool(char16_t c)
@@ -74,7 +75,8 @@ namespace detail
     inline auto to_unsigned_or_bool(wchar_t c)
         -> std::uint32_t
     {
-        return static_cast<std::uint32_t>(c);
+        return static_cast<std::uint32_t>(c)
+             + (std::is_signed<wchar_t>::value ? 0x80000000 : 0);
     }
 
     inline auto to_unsigned_or_bool(short i)
@@ -440,6 +442,22 @@ namespace detail
                           std::ptrdiff_t, Projection, void*);
     };
 
+    template<typename T, typename Element>
+    auto list_element_key(const Element& element, long)
+        -> const Element&
+    {
+        return element;
+    }
+
+    // The characters of a string are ordered by its traits, which
+    // compare char as if it was unsigned char
+    template<typename T, typename = typename T::traits_type>
+    auto list_element_key(const char& element, int)
+        -> unsigned char
+    {
+        return static_cast<unsigned char>(element);
+    }
+
     template<typename CurrentSubKey, typename T>
     struct ListElementSubKey:
         SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>
@@ -453,7 +471,8 @@ namespace detail
         {
             BaseListSortData* list_sort_data = static_cast<BaseListSortData*>(sort_data);
             const T& list = CurrentSubKey::sub_key(value, list_sort_data->next_sort_data);
-            return base::sub_key(list[list_sort_data->current_index], list_sort_data->next_sort_data);
+            return base::sub_key(list_element_key<T>(list[list_sort_data->current_index], 0),
+                                 list_sort_data->next_sort_data);
         }
     };
 
-- 
2.43.0


From ee5f24fd44b57828c6d79f0f0125014e486edb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 11/24] fix: signed overflow of the range in integer spreadsort

---
 include/cpp-sort/detail/spreadsort/detail/integer_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
index d304f9a..f4aeac8 100644
--- a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
@@ -113,7 +113,7 @@ namespace spreadsort
         return;
       RandomAccessIter * target_bin;
       unsigned log_divisor = get_log_divisor<int_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type((proj(*max) >> 0) - (proj(*min) >> 0))));
+          last - first, rough_log_2_size(Size_type(Size_type(proj(*max) >> 0) - Size_type(proj(*min) >> 0))));
       Div_type div_min = proj(*min) >> log_divisor;
       Div_type div_max = proj(*max) >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
-- 
2.43.0


From 5a25090027dd8309fc352187ae4d355946d4f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 12/24] fix: float spreadsort of collections with only negative
 values

---
 .../cpp-sort/detail/spreadsort/detail/float_sort.h    | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index 2264910..0ea6f0a 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -274,7 +274,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(Size_type(max) - Size_type(min))));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -289,11 +289,10 @@ namespace detail
         ++current;
       }
       //The index of the first positive bin
-      //Must be divided small enough to fit into an integer
-      unsigned first_positive = (div_min < 0) ? unsigned(-div_min) : 0;
-      //Resetting if all bins are negative
-      if (cache_offset + first_positive > cache_end)
-        first_positive = cache_end - cache_offset;
+      //If all bins are negative, -div_min might not fit into an integer
+      unsigned first_positive = bin_count;
+      if (div_max >= 0)
+        first_positive = (div_min < 0) ? unsigned(-div_min) : 0;
       //Reversing the order of the negative bins
       //Note that because of the negative/positive ordering direction flip
       //We can not depend upon bin order and positions matching up
-- 
2.43.0


From 132d0abcd7afb371b72b1e1f27146753c1f1b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 13/24] fix: documented move weight of low_moves_sorter<2>

---
 docs/Fixed-size-sorters.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/Fixed-size-sorters.md b/docs/Fixed-size-sorters.md
index dd9ce78..d4c65f1 100644
--- a/docs/Fixed-size-sorters.md
+++ b/docs/Fixed-size-sorters.md
@@ -60,7 +60,7 @@ Size | Move weight
 ---- | -----------
 0 | 0
 1 | 0
-2 | 2
+2 | 3
 3 | 17
 4 | 122
 5 | 898
-- 
2.43.0


From fca2ac9539dd823c6db15229e529f379ca1eaca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 14/24] fix: natural_less compares past the first equal numbers

---
 include/cpp-sort/comparators/natural_less.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 8e511a2..5ea846c 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -29,11 +29,11 @@ namespace cppsort
                 auto last1 = begin1;
                 auto last2 = begin2;
                 do {
-                    if (not std::isdigit(*last1)) break;
+                    if (not std::isdigit(static_cast<unsigned char>(*last1))) break;
                     ++last1;
                 } while (last1 != end1);
                 do {
-                    if (not std::isdigit(*last2)) break;
+                    if (not std::isdigit(static_cast<unsigned char>(*last2))) break;
                     ++last2;
                 } while (last2 != end2);
 
@@ -54,12 +54,9 @@ namespace cppsort
                     if (size1 != size2) {
                         return size1 < size2;
                     }
-                    if (size1 == 0) {
-                        return false;
-                    }
 
-                    // Sizes are equal and not 0
-                    while (begin1 != end1) {
+                    // Sizes are equal
+                    while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
                         }
-- 
2.43.0


From e3675d117957d56b617ddb4b354f33a187be95b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 15/24] fix: ambiguous weak_less and weak_greater on floating
 point values

The overload for floating point types and the generic overload were equally
good candidates, so that the weak comparators could not be called.
---
 include/cpp-sort/comparators/partial_greater.h | 5 ++++-
 include/cpp-sort/comparators/partial_less.h    | 5 ++++-
 include/cpp-sort/comparators/weak_greater.h    | 5 ++++-
 include/cpp-sort/comparators/weak_less.h       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/partial_greater.h b/include/cpp-sort/comparators/partial_greater.h
index fe5c2bf..0011035 100644
--- a/include/cpp-sort/comparators/partial_greater.h
+++ b/include/cpp-sort/comparators/partial_greater.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_greater(lhs, rhs)))
-            -> decltype(cppsort::weak_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_greater(lhs, rhs))
+            >
         {
             return cppsort::weak_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/partial_less.h b/include/cpp-sort/comparators/partial_less.h
index 7bebbaf..aa658aa 100644
--- a/include/cpp-sort/comparators/partial_less.h
+++ b/include/cpp-sort/comparators/partial_less.h
@@ -35,7 +35,10 @@ namespace cppsort
         template<typename T>
         auto partial_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_less(lhs, rhs)))
-            -> decltype(cppsort::weak_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::weak_less(lhs, rhs))
+            >
         {
             return cppsort::weak_less(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_greater.h b/include/cpp-sort/comparators/weak_greater.h
index 00ed693..3f96de3 100644
--- a/include/cpp-sort/comparators/weak_greater.h
+++ b/include/cpp-sort/comparators/weak_greater.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_greater(lhs, rhs)))
-            -> decltype(cppsort::total_greater(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_greater(lhs, rhs))
+            >
         {
             return cppsort::total_greater(lhs, rhs);
         }
diff --git a/include/cpp-sort/comparators/weak_less.h b/include/cpp-sort/comparators/weak_less.h
index f4ecda3..6254146 100644
--- a/include/cpp-sort/comparators/weak_less.h
+++ b/include/cpp-sort/comparators/weak_less.h
@@ -43,7 +43,10 @@ namespace cppsort
         template<typename T>
         auto weak_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_less(lhs, rhs)))
-            -> decltype(cppsort::total_less(lhs, rhs))
+            -> detail::enable_if_t<
+                not std::is_floating_point<T>::value,
+                decltype(cppsort::total_less(lhs, rhs))
+            >
         {
             return cppsort::total_less(lhs, rhs);
         }
-- 
2.43.0


From 71ae1fe1e4f4ddaed5f4904f268f62e910488ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 16/24] fix: introselect when the nth element starts the right
 partition

When nth_pos equals the combined size of the left and middle partitions, the
nth element belongs to the right partition, which still has to be selected.
---
 include/cpp-sort/detail/introselect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index e33a530..2ce62a6 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -304,7 +304,7 @@ namespace detail
             if (nth_pos < size_left) {
                 last = middle1;
                 size = size_left;
-            } else if (nth_pos > size_left + size_middle) {
+            } else if (nth_pos >= size_left + size_middle) {
                 first = middle2;
                 nth_pos -= size_left + size_middle;
                 size = size_right;
-- 
2.43.0


From 8aeaf2cda2ef9d9c3452a3f257b84e990e777c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 17/24] fix: stable_sort(sorter, first, last) is ambiguous with
 stable_sort(collection, compare, projection)

---
 include/cpp-sort/stable_sort.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/stable_sort.h b/include/cpp-sort/stable_sort.h
index 0265046..7abc239 100644
--- a/include/cpp-sort/stable_sort.h
+++ b/include/cpp-sort/stable_sort.h
@@ -47,7 +47,8 @@ namespace cppsort
         typename Projection,
         typename = detail::enable_if_t<
             not is_comparison_sorter_v<Iterable, Compare, Projection> &&
-            not is_projection_sorter_v<Iterable, Compare, Projection>
+            not is_projection_sorter_v<Iterable, Compare, Projection> &&
+            not is_sorter_iterator_v<Iterable, Compare>
         >
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
-- 
2.43.0


From 1ed314614bc68fe5d4d7a40b0321724a5b348095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 18/24] fix: self_sort_adapter calls list::sort with a
 projection

The sort methods of the standard library lists accept any type as a comparison
function, so that sorting a list with only a projection failed to compile.
---
 include/cpp-sort/adapters/self_sort_adapter.h | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/self_sort_adapter.h b/include/cpp-sort/adapters/self_sort_adapter.h
index 402539a..30801f5 100644
--- a/include/cpp-sort/adapters/self_sort_adapter.h
+++ b/include/cpp-sort/adapters/self_sort_adapter.h
@@ -33,12 +33,30 @@ namespace cppsort
         using has_sort_method_t
             = decltype(std::declval<Iterable&>().sort(utility::as_function(std::declval<Args&>())...));
 
+        // The sort methods of the standard library lists accept any
+        // type as a comparison function, even a projection
+        template<typename Iterable, typename... Args>
+        struct is_list_projection:
+            std::false_type
+        {};
+
+        template<typename T, typename Allocator, typename Function>
+        struct is_list_projection<std::forward_list<T, Allocator>, Function>:
+            is_projection<Function, std::forward_list<T, Allocator>&>
+        {};
+
+        template<typename T, typename Allocator, typename Function>
+        struct is_list_projection<std::list<T, Allocator>, Function>:
+            is_projection<Function, std::list<T, Allocator>&>
+        {};
+
         template<
             typename Iterable,
             typename... Args
         >
         constexpr bool has_sort_method
-            = is_detected_v<has_sort_method_t, Iterable, Args...>;
+            = is_detected_v<has_sort_method_t, Iterable, Args...> &&
+              not is_list_projection<remove_cvref_t<Iterable>, remove_cvref_t<Args>...>::value;
 
         template<
             typename Iterable,
-- 
2.43.0


From dd1c771dcca30ad61ea5787e61be254d5b4c5fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 19/24] fix: don't lose a signed zero in swap_if for
 floating-point values

---
 include/cpp-sort/detail/swap_if.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index ff46cff..7ea2e4d 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -61,7 +61,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::min)(x, y);
-        y = (std::max)(dx, y);
+        y = (std::max)(y, dx);
     }
 
     template<typename Integer>
@@ -79,7 +79,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::max)(x, y);
-        y = (std::min)(dx, y);
+        y = (std::min)(y, dx);
     }
 
 #if CPPSORT_STD_IDENTITY_AVAILABLE
-- 
2.43.0


From 81120ccd72e96195f3fbc3264aa99ece066218e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 20/24] fix: accept strings of wide characters in ska_sort

The element key of char strings made the call ambiguous for
std::wstring, std::u16string and std::u32string.
---
 include/cpp-sort/detail/ska_sort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index c12e866..071717f 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -451,9 +451,9 @@ namespace detail
 
     // The characters of a string are ordered by its traits, which
     // compare char as if it was unsigned char
-    template<typename T, typename = typename T::traits_type>
-    auto list_element_key(const char& element, int)
-        -> unsigned char
+    template<typename T, typename Element, typename = typename T::traits_type>
+    auto list_element_key(const Element& element, int)
+        -> detail::enable_if_t<std::is_same<Element, char>::value, unsigned char>
     {
         return static_cast<unsigned char>(element);
     }
-- 
2.43.0


From a614eb5ea5d9fc280878b19a20670c63330fdcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 21/24] fix: probe::dis computes its result in the iterator's
 difference_type, not int

---
 include/cpp-sort/probes/dis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/probes/dis.h b/include/cpp-sort/probes/dis.h
index ffd9a34..df1cd87 100644
--- a/include/cpp-sort/probes/dis.h
+++ b/include/cpp-sort/probes/dis.h
@@ -38,7 +38,7 @@ namespace probe
         {
             // Simple algorithm in O(n log n) time and O(1) space
 
-            auto res = 0;
+            cppsort::detail::difference_type_t<ForwardIterator> res = 0;
             auto res_it = first;
             while (size > 0) {
                 auto p = res;
-- 
2.43.0


From d3bcf7c0ecf05661c69e254b5169d39e88424a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 22/24] fix: merge a single-element run of vergesort with its
 neighbour only, not with everything before it

---
 include/cpp-sort/detail/vergesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 8671b5a..9144953 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -67,7 +67,7 @@ namespace verge
                     auto&& target = proj(*begin);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
-                        detail::rotate_left(first, insert_it);
+                        detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-- 
2.43.0


From 2e8205f302b9a380b9a28177ec27c5ff49d2307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 23/24] fix: let exceptions thrown while an association is
 moved reach the caller

---
 include/cpp-sort/detail/associate_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 2d70e74..81c9d5a 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -64,7 +64,7 @@ namespace detail
             data(std::move(data))
         {}
 
-        auto operator=(association&& other) noexcept
+        auto operator=(association&& other)
             -> association&
         {
             *it = std::move(*other.it);
-- 
2.43.0


From 8873d61e39587f86db1ed9d9d130e541e6391b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 24/24] fix: return the median in introselect's median-of-five

---
 include/cpp-sort/detail/introselect.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index 2ce62a6..10796d9 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -81,14 +81,14 @@ namespace detail
 
         if (comp(proj(*it1), proj(*it3))) {
             if (comp(proj(*it2), proj(*it3))) {
-                return it3;
+                return it2;
             }
-            return it2;
+            return it3;
         } else {
             if (comp(proj(*it4), proj(*it1))) {
-                return it1;
+                return it4;
             }
-            return it4;
+            return it1;
         }
     }
 
-- 
2.43.0

