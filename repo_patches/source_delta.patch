From 9b10801e336b2a4c59419f45b5fe031a62c4ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 01/17] fix: exact integer floor division and remainder

---
 lib/common/include/scipp/common/numeric.h | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index eb51afb..2b8b51b 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -63,10 +63,21 @@ template <class T, class U> auto true_divide(const T &a, const U &b) {
 template <class T, class U>
 std::common_type_t<T, U> floor_divide(const T &a, const U &b) {
   using std::floor;
-  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>)
-    return b == 0 ? 0 : floor(static_cast<double>(a) / static_cast<double>(b));
-  else
+  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
+    // Integer arithmetic, double cannot represent all 64-bit integers.
+    using R = std::common_type_t<T, U>;
+    const R x = a;
+    const R y = b;
+    if (y == 0)
+      return 0;
+    // min / -1 would trap, wrap instead
+    if (std::is_signed_v<R> && y == static_cast<R>(-1))
+      return static_cast<R>(0 - static_cast<std::make_unsigned_t<R>>(x));
+    const R q = x / y;
+    return x % y != 0 && (x < 0) != (y < 0) ? q - 1 : q;
+  } else {
     return floor(a / b);
+  }
 }
 
 // Remainder like Python's __mod__, complementary to floor_divide.
@@ -74,7 +85,13 @@ template <class T, class U> auto remainder(const T &a, const U &b) {
   if constexpr (std::is_floating_point_v<T> || std::is_floating_point_v<U>) {
     return b == 0 ? NAN : a - floor_divide(a, b) * b;
   } else {
-    return b == 0 ? 0 : a - floor_divide(a, b) * b;
+    using R = std::common_type_t<T, U>;
+    const R x = a;
+    const R y = b;
+    if (y == 0 || (std::is_signed_v<R> && y == static_cast<R>(-1)))
+      return R{0};
+    const R r = x % y;
+    return r != 0 && (r < 0) != (y < 0) ? static_cast<R>(r + y) : r;
   }
 }
 
-- 
2.43.0


From 7a1087b9c4508569ae86f892ce060233d23b99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 02/17] fix: reject zig-zag and NaN sequences in islinspace and
 isarange

---
 lib/common/include/scipp/common/numeric.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index 2b8b51b..1d61461 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -27,14 +27,14 @@ template <class Range> bool islinspace(const Range &range) {
                       (std::abs(range.front()) + std::abs(range.back())) * ulp;
     return std::adjacent_find(range.begin(), range.end(),
                               [epsilon, delta](const auto &a, const auto &b) {
-                                return std::abs(std::abs(b - a) - delta) >
-                                       epsilon;
+                                // negated to also catch NaN
+                                return !(std::abs((b - a) - delta) <= epsilon);
                               }) == range.end();
   } else {
     const auto delta = range[1] - range[0];
     return std::adjacent_find(range.begin(), range.end(),
                               [delta](const auto &a, const auto &b) {
-                                return std::abs(b - a) != delta;
+                                return b - a != delta;
                               }) == range.end();
   }
 }
@@ -47,7 +47,7 @@ template <class Range> bool isarange(const Range &range) {
     return false;
   return std::adjacent_find(range.begin(), range.end(),
                             [](const auto &a, const auto &b) {
-                              return std::abs(b - a) != 1;
+                              return b - a != 1;
                             }) == range.end();
 }
 
-- 
2.43.0


From ce0b891b2f95accc3c664604ea2a6e7282854f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 03/17] fix: find the right bin when edges are linear only up
 to rounding

---
 lib/core/include/scipp/core/histogram.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/core/include/scipp/core/histogram.h b/lib/core/include/scipp/core/histogram.h
index 16e7c34..8776a01 100644
--- a/lib/core/include/scipp/core/histogram.h
+++ b/lib/core/include/scipp/core/histogram.h
@@ -40,13 +40,13 @@ Index get_bin(const T &x, const Edges &edges, const Params &params) {
   const auto [offset, nbin, scale] = params;
   Index bin = (x - offset) * scale;
   bin = std::clamp(bin, Index(0), Index(nbin - 1));
-  if (x < edges[bin]) {
-    return bin - 1;
-  } else if (x >= edges[bin + 1]) {
-    return bin + 1;
-  } else {
-    return bin;
-  }
+  // Edges are linear only up to rounding, the result may be off by more than
+  // one bin if bins are very narrow compared to the edge values.
+  while (x < edges[bin])
+    --bin;
+  while (x >= edges[bin + 1])
+    ++bin;
+  return bin;
 }
 
 } // namespace scipp::core
-- 
2.43.0


From ddab4ee2a1ca470b89dc7cc310a2d5d086113930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 04/17] fix: memory bounds of broadcast dimensions and of
 negative strides

---
 lib/common/include/scipp/common/index_composition.h | 13 +++++++++----
 lib/python/numpy.h                                  |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/common/include/scipp/common/index_composition.h b/lib/common/include/scipp/common/index_composition.h
index 54c043a..c767c05 100644
--- a/lib/common/include/scipp/common/index_composition.h
+++ b/lib/common/include/scipp/common/index_composition.h
@@ -37,6 +37,7 @@ constexpr auto flat_index_from_strides(ForwardIt1 strides_it,
 /// returns a begin and an end index such that
 /// - `p + begin` is the smallest reachable address and
 /// - `p + end` is one past the largest reachable address
+/// If the shape has no elements, both are zero.
 ///
 /// \return A pair of indices `{begin, end}`.
 template <class ForwardIt1, class ForwardIt2>
@@ -48,12 +49,16 @@ constexpr auto memory_bounds(ForwardIt1 shape_it, const ForwardIt1 shape_end,
     return std::pair{scipp::index{0}, scipp::index{1}};
   }
   scipp::index begin = 0;
-  scipp::index end = 0;
+  scipp::index end = 1;
   for (; shape_it != shape_end; ++shape_it, ++strides_it) {
-    if (*strides_it < 0)
-      begin += *shape_it * *strides_it;
+    if (*shape_it == 0)
+      return std::pair{scipp::index{0}, scipp::index{0}};
+    // Offset of the last element, may be zero for broadcast dimensions.
+    const scipp::index last = (*shape_it - 1) * *strides_it;
+    if (last < 0)
+      begin += last;
     else
-      end += *shape_it * *strides_it;
+      end += last;
   }
   return std::pair{begin, end};
 }
diff --git a/lib/python/numpy.h b/lib/python/numpy.h
index 30e4a18..f52a455 100644
--- a/lib/python/numpy.h
+++ b/lib/python/numpy.h
@@ -218,7 +218,8 @@ template <class T> auto memory_begin_end(const py::buffer_info &info) {
   auto *end = static_cast<const T *>(info.ptr);
   const auto [begin_offset, end_offset] =
       memory_bounds(info.shape.begin(), info.shape.end(), info.strides.begin());
-  return std::pair{begin + begin_offset, end + end_offset};
+  // Strides are in bytes here but items are wider than one byte.
+  return std::pair{begin + begin_offset, end + end_offset + info.itemsize - 1};
 }
 
 template <class T, class View>
-- 
2.43.0


From 8630a47d87ae3b9f16d85a03aec11e8c99f929ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 05/17] fix: consider offsets when testing for overlap of array
 views

---
 lib/core/element_array_view.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/element_array_view.cpp b/lib/core/element_array_view.cpp
index e0b2b35..bdd75fb 100644
--- a/lib/core/element_array_view.cpp
+++ b/lib/core/element_array_view.cpp
@@ -75,7 +75,9 @@ ElementArrayViewParams::overlaps(const ElementArrayViewParams &other) const {
   const auto [other_begin, other_end] =
       memory_bounds(other.m_iterDims.shape().begin(),
                     other.m_iterDims.shape().end(), other.m_strides.begin());
-  return ((this_begin < other_end) && (this_end > other_begin));
+  // Bounds are relative to the offset.
+  return ((m_offset + this_begin < other.m_offset + other_end) &&
+          (m_offset + this_end > other.m_offset + other_begin));
 }
 
 } // namespace scipp::core
-- 
2.43.0


From b231fee9ff703c5d1f391f13ac3389efd87a1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 06/17] fix: one id per label when threads create the same
 dimension label

---
 lib/units/dim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 83563a2..ae9817e 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -58,6 +58,11 @@ Dim::Dim(const std::string &label) {
   }
   read_lock.unlock();
   const std::unique_lock write_lock(mutex);
+  // Another thread may have added the label while the lock was released.
+  if (const auto it = custom_ids().find(label); it != custom_ids().end()) {
+    m_id = it->second;
+    return;
+  }
   const auto id = scipp::size(custom_ids()) + 1000;
   if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())
     throw std::runtime_error(
-- 
2.43.0


From a8698ac675595cb2c9014cd32bb15bcb099a6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 07/17] fix: compose an affine with a linear transform instead
 of transforming its columns

---
 lib/core/include/scipp/core/spatial_transforms.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/core/include/scipp/core/spatial_transforms.h b/lib/core/include/scipp/core/spatial_transforms.h
index 40dfdf0..1095705 100644
--- a/lib/core/include/scipp/core/spatial_transforms.h
+++ b/lib/core/include/scipp/core/spatial_transforms.h
@@ -127,6 +127,15 @@ operator*(const T_LHS &lhs, const T_RHS &rhs) {
   return Eigen::Affine3d(asEigenType(lhs) * asEigenType(rhs));
 }
 
+/// Combine an affine transform with a linear transform.
+///
+/// Eigen would interpret the right-hand-side as a set of three column vectors
+/// and apply the affine transform to each of them.
+[[nodiscard]] inline Eigen::Affine3d operator*(const Eigen::Affine3d &lhs,
+                                               const Eigen::Matrix3d &rhs) {
+  return lhs * Eigen::Affine3d(rhs);
+}
+
 [[nodiscard]] inline Eigen::Vector3d operator*(const Quaternion &lhs,
                                                const Eigen::Vector3d &rhs) {
   return asEigenType(lhs) * rhs;
-- 
2.43.0


From f7ef7b6dd45815d3cf6d15435ee1f9d21094d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 08/17] fix: exact integer unit scaling and correct rounding to
 nearest in to_unit

---
 lib/core/include/scipp/core/element/to_unit.h | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/core/include/scipp/core/element/to_unit.h b/lib/core/include/scipp/core/element/to_unit.h
index 81e3a29..794be5a 100644
--- a/lib/core/include/scipp/core/element/to_unit.h
+++ b/lib/core/include/scipp/core/element/to_unit.h
@@ -32,10 +32,33 @@ template <class T, class U> T safe_cast(const U x) {
 template <class T>
 constexpr auto round = [](const auto x) {
   if constexpr (std::is_integral_v<T>)
-    return safe_cast<T>(x < 0 ? x - 0.5 : x + 0.5);
+    return safe_cast<T>(std::round(x));
   else
     return static_cast<T>(x);
 };
+
+/// Exact product of integers, saturating instead of overflowing.
+template <class T> constexpr T saturating_multiply(const T a, const T b) {
+  constexpr auto lo = std::numeric_limits<T>::min();
+  constexpr auto hi = std::numeric_limits<T>::max();
+  if (a == 0 || b == 0)
+    return 0;
+  if (a > 0 ? b < lo / a : (b > 0 && a < lo / b))
+    return lo;
+  if (a > 0 ? b > hi / a : (b < 0 && a < hi / b))
+    return hi;
+  return a * b;
+}
+
+/// Multiply by scale and convert back to the type of x. Avoid the detour via
+/// floating-point if both are integers, as it loses digits beyond 2^53.
+template <class T, class Scale>
+auto scale_and_round(const T &x, const Scale &scale) {
+  if constexpr (std::is_integral_v<T> && std::is_same_v<T, Scale>)
+    return saturating_multiply<T>(x, scale);
+  else
+    return round<T>(x * scale);
+}
 } // namespace
 
 constexpr auto to_unit = overloaded{
@@ -48,7 +71,7 @@ constexpr auto to_unit = overloaded{
     transform_flags::expect_no_variance_arg<1>,
     [](const units::Unit &, const units::Unit &target) { return target; },
     [](const time_point &x, const auto &scale) {
-      return time_point{round<int64_t>(x.time_since_epoch() * scale)};
+      return time_point{scale_and_round(x.time_since_epoch(), scale)};
     },
     [](const Eigen::Affine3d &x, const auto &scale) {
       auto out = x;
@@ -59,7 +82,7 @@ constexpr auto to_unit = overloaded{
       return Translation(x.vector() * scale);
     },
     [](const auto &x, const auto &scale) {
-      return round<std::decay_t<decltype(x)>>(x * scale);
+      return scale_and_round(x, scale);
     }};
 
 } // namespace scipp::core::element
-- 
2.43.0


From 1044f78e714b9675e93f990c5024650444e0cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 09/17] fix: do not flatten broadcast dimensions into the
 innermost dimension

---
 lib/core/multi_index.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index a6b37c1..f281730 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -105,10 +105,14 @@ flatten_dims(const scipp::span<std::array<scipp::index, sizeof...(StridesArgs)>>
                                "For binned data, the combined bin+event "
                                "dimensions count");
     const auto size = dims.size(dim_read);
-    if (dim_read > non_flattenable_dim &&
-        dim_write > 0 && // need to write at least one inner dim
+    // Must be evaluated for every dim, including those that are not candidates
+    // for flattening, since it keeps track of strides_for_contiguous.
+    const bool contiguous =
         can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
-                         strides_for_contiguous, strides...)) {
+                         strides_for_contiguous, strides...);
+    if (contiguous && dim_read > non_flattenable_dim &&
+        dim_write > 0 // need to write at least one inner dim
+    ) {
       out_shape[dim_write - 1] *= size;
     } else {
       out_shape[dim_write] = size;
-- 
2.43.0


From 4d599af003a9c4c9a0f5c445c3f8902000c18918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 10/17] fix: end of a dense multi index without elements

---
 lib/core/include/scipp/core/multi_index.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/multi_index.h b/lib/core/include/scipp/core/multi_index.h
index d191061..f714451 100644
--- a/lib/core/include/scipp/core/multi_index.h
+++ b/lib/core/include/scipp/core/multi_index.h
@@ -4,6 +4,7 @@
 /// @author Simon Heybrock
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <numeric>
 #include <optional>
@@ -120,7 +121,10 @@ public:
         m_coord[0] = 1;
       } else {
         zero_out_coords(m_inner_ndim - 1);
-        m_coord[m_inner_ndim - 1] = m_shape[m_inner_ndim - 1];
+        // There are no steps to the end if any of the inner dims is empty.
+        const auto outer = shape_it(m_inner_ndim - 1);
+        m_coord[m_inner_ndim - 1] =
+            std::find(shape_it(), outer, scipp::index{0}) == outer ? *outer : 0;
       }
       for (scipp::index data = 0; data < N; ++data) {
         m_data_index[data] = flat_index(data, 0, m_inner_ndim);
-- 
2.43.0


From a45321cfff6f317e0298b927416df11c477bd7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 11/17] fix: do not truncate labels to the type of the groups
 when grouping

Grouping events with an int64 coord by int32 group labels looked up the
coord after casting it to int32, such that values differing by a multiple
of 2^32 ended up in the same group.
---
 lib/core/include/scipp/core/element/bin.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/bin.h b/lib/core/include/scipp/core/element/bin.h
index ac0bdc4..654eb95 100644
--- a/lib/core/include/scipp/core/element/bin.h
+++ b/lib/core/include/scipp/core/element/bin.h
@@ -136,7 +136,10 @@ static constexpr auto update_indices_by_grouping = overloaded{
     [](auto &index, const auto &x, const auto &groups) {
       if (index == -1)
         return;
-      const auto it = groups.find(x);
+      auto it = groups.find(x);
+      // `find` casts to the type of the groups, which may be of lower precision
+      if (it != groups.end() && !(it->first == x))
+        it = groups.end();
       index *= scipp::size(groups);
       index = (it == groups.end()) ? -1 : (index + it->second);
     }};
-- 
2.43.0


From 92316f272989090051f08c7910fcadfd740c3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 12/17] fix: sequences with a descending step are not evenly
 spaced

islinspace accepted steps down within its tolerance, such that operations
that require sorted bin edges used the fast path with unsorted edges.
---
 lib/common/include/scipp/common/numeric.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index 1d61461..ebca9fc 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -27,8 +27,10 @@ template <class Range> bool islinspace(const Range &range) {
                       (std::abs(range.front()) + std::abs(range.back())) * ulp;
     return std::adjacent_find(range.begin(), range.end(),
                               [epsilon, delta](const auto &a, const auto &b) {
-                                // negated to also catch NaN
-                                return !(std::abs((b - a) - delta) <= epsilon);
+                                // negated to also catch NaN, a step may be
+                                // down and yet within the tolerance
+                                return !(a <= b) ||
+                                       !(std::abs((b - a) - delta) <= epsilon);
                               }) == range.end();
   } else {
     const auto delta = range[1] - range[0];
-- 
2.43.0


From 2ba88654e977846ead2eedc9674aff9f5a8a83c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:22 +0000
Subject: [PATCH 13/17] fix: rebin truncated the overlap fraction of time-point
 edges to an integer

---
 lib/core/include/scipp/core/element/rebin.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/rebin.h b/lib/core/include/scipp/core/element/rebin.h
index d7f61bc..cc8ded5 100644
--- a/lib/core/include/scipp/core/element/rebin.h
+++ b/lib/core/include/scipp/core/element/rebin.h
@@ -46,7 +46,12 @@ static constexpr auto rebin = overloaded{
           const auto delta =
               std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low, less));
           const auto owidth = std::abs(xo_high - xo_low);
-          const auto scale = delta / owidth;
+          // The difference of time points is an integer, the fraction is not.
+          using Fraction = std::conditional_t<
+              std::is_integral_v<std::decay_t<decltype(delta)>>, double,
+              std::decay_t<decltype(delta)>>;
+          const auto scale =
+              static_cast<Fraction>(delta) / static_cast<Fraction>(owidth);
           if constexpr (is_ValueAndVariance_v<
                             std::decay_t<decltype(data_old)>>) {
             data_new.value[inew] += data_old.value[iold] * scale;
-- 
2.43.0


From 9d4948df3974ae4ef4acca2ec16837b65970c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:45 +0000
Subject: [PATCH 14/17] fix: exclusive scan of sub-bin sizes starting before
 the accumulant

SubbinSizes::exclusive_scan read the accumulant at negative indices when the
block of the argument starts before that of the accumulant.
---
 lib/core/subbin_sizes.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/core/subbin_sizes.cpp b/lib/core/subbin_sizes.cpp
index ec77f5f..8970177 100644
--- a/lib/core/subbin_sizes.cpp
+++ b/lib/core/subbin_sizes.cpp
@@ -97,6 +97,10 @@ SubbinSizes operator-(const SubbinSizes &a, const SubbinSizes &b) {
  * via suboperations but a single loop.
  */
 void SubbinSizes::exclusive_scan(SubbinSizes &x) {
+  // The in-place update below requires that the accumulant does not start after
+  // the argument.
+  if (x.offset() < offset())
+    *this = *this + SubbinSizes(x.offset(), {});
   const scipp::index osize = scipp::size(sizes());
   const scipp::index size = scipp::size(x.sizes());
   const auto delta = x.offset() - offset();
-- 
2.43.0


From 6180e64b728191c688e05a3ee99177fc446f3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:06 +0000
Subject: [PATCH 15/17] fix: validSlice accepted a point slice at the largest
 index because begin + 1 overflows

---
 lib/core/except.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/core/except.cpp b/lib/core/except.cpp
index a796b29..ba499c5 100644
--- a/lib/core/except.cpp
+++ b/lib/core/except.cpp
@@ -97,8 +97,10 @@ void ndim_is(const Sizes &dims, const scipp::index expected) {
 void validSlice(const Sizes &dims, const Slice &slice) {
   if (slice == Slice{})
     return;
-  const auto end = slice.end() < 0 ? slice.begin() + 1 : slice.end();
-  if (!dims.contains(slice.dim()) || end > dims[slice.dim()])
+  const auto fits = [&slice](const scipp::index size) {
+    return slice.isRange() ? slice.end() <= size : slice.begin() < size;
+  };
+  if (!dims.contains(slice.dim()) || !fits(dims[slice.dim()]))
     throw except::SliceError("Expected " + to_string(slice) + " to be in " +
                              to_string(dims) + ".");
 }
-- 
2.43.0


From 7a4ea61d23eb83d61511c4edee401ee044d9e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:06 +0000
Subject: [PATCH 16/17] fix: copy assignment of element_array turned a buffer
 that was never given a size into an empty one

---
 lib/core/include/scipp/core/element_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element_array.h b/lib/core/include/scipp/core/element_array.h
index 7b16df9..37d3843 100644
--- a/lib/core/include/scipp/core/element_array.h
+++ b/lib/core/include/scipp/core/element_array.h
@@ -104,7 +104,7 @@ public:
   }
 
   element_array &operator=(const element_array &other) {
-    return *this = element_array(other.begin(), other.end());
+    return *this = element_array(other);
   }
 
   explicit operator bool() const noexcept { return m_size != -1; }
-- 
2.43.0


From f4ed23c13660bd1a5c29e950196044240100ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 17/17] fix: refuse unit powers beyond the range of the
 exponent

---
 lib/units/unit.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/units/unit.cpp b/lib/units/unit.cpp
index 3b18cb6..04cae0b 100644
--- a/lib/units/unit.cpp
+++ b/lib/units/unit.cpp
@@ -157,10 +157,13 @@ Unit sqrt(const Unit &a) {
 Unit pow(const Unit &a, const int64_t power) {
   if (a == none)
     return a;
-  if (llnl::units::pow_overflows(a.underlying(), static_cast<int>(power)))
+  const auto exponent = static_cast<int>(power);
+  if (exponent != power && a == one)
+    return a; // exponent is not representable, but makes no difference
+  if (exponent != power || llnl::units::pow_overflows(a.underlying(), exponent))
     throw except::UnitError("Unsupported unit as result of pow: pow(" +
                             a.name() + ", " + std::to_string(power) + ").");
-  return Unit{a.underlying().pow(static_cast<int>(power))};
+  return Unit{a.underlying().pow(exponent)};
 }
 
 Unit trigonometric(const Unit &a) {
-- 
2.43.0

