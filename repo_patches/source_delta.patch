From 8b6fc85b1d1ff5d260f1a971271620c5c817de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 001/104] fix: do not register a dimension label twice when
 threads race

Two threads constructing a Dim from the same new label could both miss the
lookup under the shared lock and then each insert an id of their own, so that
equal labels compared unequal. Look the label up again under the unique lock.
---
 lib/units/dim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 83563a2..b90df86 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -58,6 +58,11 @@ Dim::Dim(const std::string &label) {
   }
   read_lock.unlock();
   const std::unique_lock write_lock(mutex);
+  // Another thread may have added the label while no lock was held.
+  if (const auto it = custom_ids().find(label); it != custom_ids().end()) {
+    m_id = it->second;
+    return;
+  }
   const auto id = scipp::size(custom_ids()) + 1000;
   if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())
     throw std::runtime_error(
-- 
2.43.0


From 10a5da1688233b011810cd498bf7b8775d8c6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 002/104] fix: refuse views with more dimensions than ViewIndex
 can hold

ViewIndex keeps its strides in arrays of NDIM_OP_MAX elements but did not
check the number of dimensions left after flattening, so iterating, e.g., a
transposed 7-dimensional variable wrote out of bounds and visited wrong
elements. MultiIndex raises an error in the same situation.
---
 lib/core/view_index.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/core/view_index.cpp b/lib/core/view_index.cpp
index 57493cf..115c6d3 100644
--- a/lib/core/view_index.cpp
+++ b/lib/core/view_index.cpp
@@ -4,6 +4,9 @@
 /// @author Jan-Lukas Wynen
 #include "scipp/core/view_index.h"
 
+#include <stdexcept>
+#include <string>
+
 #include "scipp/core/except.h"
 
 namespace scipp::core {
@@ -19,6 +22,10 @@ ViewIndex::ViewIndex(const Dimensions &target_dimensions,
     const auto size = target_dimensions.size(dim_read);
     rewind = size * stride;
     if (delta != 0 || stride == 0) {
+      if (dim_write >= NDIM_OP_MAX)
+        throw std::runtime_error("Views with more than " +
+                                 std::to_string(NDIM_OP_MAX) +
+                                 " dimensions are not supported.");
       m_shape[dim_write] = size;
       m_delta[dim_write] = delta;
       m_strides[dim_write] = stride;
-- 
2.43.0


From 357ce76e84653d0e4101fbbdb7c68951f1b9df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 003/104] fix: concatenate sizes when the first has length 0

concat of Sizes removed the dimension by slicing at index 0, which is out of
range for length 0, so concatenating an empty dataset with others failed.
---
 lib/core/sizes.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/sizes.cpp b/lib/core/sizes.cpp
index 17c1716..a483bda 100644
--- a/lib/core/sizes.cpp
+++ b/lib/core/sizes.cpp
@@ -173,7 +173,9 @@ Sizes Sizes::rename_dims(const std::vector<std::pair<Dim, Dim>> &names,
 
 namespace {
 Sizes concat2(const Sizes &a, const Sizes &b, const Dim dim) {
-  Sizes out = a.contains(dim) ? a.slice({dim, 0}) : a;
+  Sizes out = a;
+  if (out.contains(dim)) // not via slice, the length may be 0
+    out.erase(dim);
   out.set(dim, (a.contains(dim) ? a[dim] : 1) + (b.contains(dim) ? b[dim] : 1));
   return out;
 }
-- 
2.43.0


From a437236aa567f36779daab16ea73a05e98e45944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 004/104] fix: do not flatten a broadcast dimension into the
 inner loop

---
 lib/core/multi_index.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index a6b37c1..3665b67 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -105,10 +105,13 @@ flatten_dims(const scipp::span<std::array<scipp::index, sizeof...(StridesArgs)>>
                                "For binned data, the combined bin+event "
                                "dimensions count");
     const auto size = dims.size(dim_read);
+    // Must be called for every dim since it updates strides_for_contiguous.
+    const bool contiguous =
+        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
+                         strides_for_contiguous, strides...);
     if (dim_read > non_flattenable_dim &&
         dim_write > 0 && // need to write at least one inner dim
-        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
-                         strides_for_contiguous, strides...)) {
+        contiguous) {
       out_shape[dim_write - 1] *= size;
     } else {
       out_shape[dim_write] = size;
-- 
2.43.0


From 1ca7128e5ae48f9175ced06324d2c6f81d45e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 005/104] fix: begin and end of an empty MultiIndex are equal

---
 lib/core/include/scipp/core/multi_index.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/multi_index.h b/lib/core/include/scipp/core/multi_index.h
index d191061..5ecee18 100644
--- a/lib/core/include/scipp/core/multi_index.h
+++ b/lib/core/include/scipp/core/multi_index.h
@@ -4,6 +4,7 @@
 /// @author Simon Heybrock
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <numeric>
 #include <optional>
@@ -119,8 +120,11 @@ public:
       if (m_inner_ndim == 0) {
         m_coord[0] = 1;
       } else {
-        zero_out_coords(m_inner_ndim - 1);
-        m_coord[m_inner_ndim - 1] = m_shape[m_inner_ndim - 1];
+        zero_out_coords(m_inner_ndim);
+        // No elements if any dim has length 0, i.e., the begin is the end.
+        if (std::find(shape_it(), shape_it(m_inner_ndim), scipp::index{0}) ==
+            shape_it(m_inner_ndim))
+          m_coord[m_inner_ndim - 1] = m_shape[m_inner_ndim - 1];
       }
       for (scipp::index data = 0; data < N; ++data) {
         m_data_index[data] = flat_index(data, 0, m_inner_ndim);
-- 
2.43.0


From 4f1263abd4587f07fe3eda82696f0df50a8b0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 006/104] fix: memory bounds of a broadcast view include its
 element

---
 lib/common/include/scipp/common/index_composition.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/common/include/scipp/common/index_composition.h b/lib/common/include/scipp/common/index_composition.h
index 54c043a..57575c9 100644
--- a/lib/common/include/scipp/common/index_composition.h
+++ b/lib/common/include/scipp/common/index_composition.h
@@ -4,6 +4,7 @@
 /// @author Jan-Lukas Wynen
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstddef>
@@ -55,7 +56,9 @@ constexpr auto memory_bounds(ForwardIt1 shape_it, const ForwardIt1 shape_end,
     else
       end += *shape_it * *strides_it;
   }
-  return std::pair{begin, end};
+  // The first element is reachable even if no dim has a positive stride, e.g.,
+  // when all dims are broadcast.
+  return std::pair{begin, std::max(end, scipp::index{1})};
 }
 
 /// Extract individual indices from a flat index.
-- 
2.43.0


From 8bad9acf5c7adf1f1c887d17719102039d7290a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 007/104] fix: assigning a null element_array makes the target
 null

---
 lib/core/include/scipp/core/element_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element_array.h b/lib/core/include/scipp/core/element_array.h
index 7b16df9..37d3843 100644
--- a/lib/core/include/scipp/core/element_array.h
+++ b/lib/core/include/scipp/core/element_array.h
@@ -104,7 +104,7 @@ public:
   }
 
   element_array &operator=(const element_array &other) {
-    return *this = element_array(other.begin(), other.end());
+    return *this = element_array(other);
   }
 
   explicit operator bool() const noexcept { return m_size != -1; }
-- 
2.43.0


From 967713847837191418065a469362f150067f75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 008/104] fix: islinspace and isarange reject NaN, infinity and
 back steps

---
 lib/common/include/scipp/common/numeric.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index eb51afb..d058a61 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -16,7 +16,8 @@ namespace scipp::numeric {
 template <class Range> bool islinspace(const Range &range) {
   if (scipp::size(range) < 2)
     return false;
-  if (range.back() <= range.front())
+  // Negated such that NaN is rejected.
+  if (!(range.back() > range.front()))
     return false;
 
   using T = typename Range::value_type;
@@ -27,14 +28,13 @@ template <class Range> bool islinspace(const Range &range) {
                       (std::abs(range.front()) + std::abs(range.back())) * ulp;
     return std::adjacent_find(range.begin(), range.end(),
                               [epsilon, delta](const auto &a, const auto &b) {
-                                return std::abs(std::abs(b - a) - delta) >
-                                       epsilon;
+                                return !(std::abs((b - a) - delta) <= epsilon);
                               }) == range.end();
   } else {
     const auto delta = range[1] - range[0];
     return std::adjacent_find(range.begin(), range.end(),
                               [delta](const auto &a, const auto &b) {
-                                return std::abs(b - a) != delta;
+                                return b - a != delta;
                               }) == range.end();
   }
 }
@@ -47,7 +47,7 @@ template <class Range> bool isarange(const Range &range) {
     return false;
   return std::adjacent_find(range.begin(), range.end(),
                             [](const auto &a, const auto &b) {
-                              return std::abs(b - a) != 1;
+                              return b - a != 1;
                             }) == range.end();
 }
 
-- 
2.43.0


From f2f271f8df7ba9a4d2b7eb336e0fb9a5feeafd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 009/104] fix: floor_divide of integers is exact

---
 lib/common/include/scipp/common/numeric.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index d058a61..212bd4e 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -63,10 +63,19 @@ template <class T, class U> auto true_divide(const T &a, const U &b) {
 template <class T, class U>
 std::common_type_t<T, U> floor_divide(const T &a, const U &b) {
   using std::floor;
-  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>)
-    return b == 0 ? 0 : floor(static_cast<double>(a) / static_cast<double>(b));
-  else
+  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
+    // Not going through double since it cannot represent all integers.
+    using C = std::common_type_t<T, U>;
+    if (b == 0)
+      return 0;
+    if (b == -1) // min / -1 traps
+      return static_cast<C>(-static_cast<std::make_unsigned_t<C>>(a));
+    const auto quotient = static_cast<C>(a) / static_cast<C>(b);
+    const bool inexact = quotient * b != a;
+    return inexact && (a < 0) != (b < 0) ? quotient - 1 : quotient;
+  } else {
     return floor(a / b);
+  }
 }
 
 // Remainder like Python's __mod__, complementary to floor_divide.
-- 
2.43.0


From 0041c7e2d23c8814a5e9d5a2bc53332654f68165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 010/104] fix: pow with variances yields the value of pow
 without

---
 lib/core/include/scipp/core/value_and_variance.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/core/include/scipp/core/value_and_variance.h b/lib/core/include/scipp/core/value_and_variance.h
index 77d8fd8..d2b5734 100644
--- a/lib/core/include/scipp/core/value_and_variance.h
+++ b/lib/core/include/scipp/core/value_and_variance.h
@@ -71,9 +71,8 @@ template <class B, class E>
 constexpr auto pow(const ValueAndVariance<B> base, const E exponent) noexcept {
   const auto pow_1 = numeric::pow(base.value, exponent - 1);
   const auto var_factor = std::abs(exponent) * pow_1;
-  const auto pow_0 = (base.value == 0 && exponent == 0  ? 1
-                      : base.value == 0 && exponent > 0 ? 0
-                                                        : pow_1 * base.value);
+  // Not pow_1 * base.value, which may be NaN or inf if pow_1 is not finite.
+  const auto pow_0 = numeric::pow(base.value, exponent);
   return ValueAndVariance{pow_0, var_factor * var_factor * base.variance};
 }
 
-- 
2.43.0


From d0e28f018223863f8f1b38432511d53d32ab7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 011/104] fix: an affine transform times a linear one is affine

---
 lib/core/include/scipp/core/spatial_transforms.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/core/include/scipp/core/spatial_transforms.h b/lib/core/include/scipp/core/spatial_transforms.h
index 40dfdf0..dc0c74d 100644
--- a/lib/core/include/scipp/core/spatial_transforms.h
+++ b/lib/core/include/scipp/core/spatial_transforms.h
@@ -127,6 +127,12 @@ operator*(const T_LHS &lhs, const T_RHS &rhs) {
   return Eigen::Affine3d(asEigenType(lhs) * asEigenType(rhs));
 }
 
+/// Eigen would apply the affine transform to the columns of the matrix.
+[[nodiscard]] inline Eigen::Affine3d operator*(const Eigen::Affine3d &lhs,
+                                               const Eigen::Matrix3d &rhs) {
+  return lhs * Eigen::Affine3d(rhs);
+}
+
 [[nodiscard]] inline Eigen::Vector3d operator*(const Quaternion &lhs,
                                                const Eigen::Vector3d &rhs) {
   return asEigenType(lhs) * rhs;
-- 
2.43.0


From f4fdea494cd8afd5445962ee67436a300b186b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:02 +0000
Subject: [PATCH 012/104] fix: linear bin lookup is right for bins close to the
 resolution of the edges

---
 lib/core/include/scipp/core/histogram.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/core/include/scipp/core/histogram.h b/lib/core/include/scipp/core/histogram.h
index 16e7c34..0d35297 100644
--- a/lib/core/include/scipp/core/histogram.h
+++ b/lib/core/include/scipp/core/histogram.h
@@ -40,13 +40,13 @@ Index get_bin(const T &x, const Edges &edges, const Params &params) {
   const auto [offset, nbin, scale] = params;
   Index bin = (x - offset) * scale;
   bin = std::clamp(bin, Index(0), Index(nbin - 1));
-  if (x < edges[bin]) {
-    return bin - 1;
-  } else if (x >= edges[bin + 1]) {
-    return bin + 1;
-  } else {
-    return bin;
-  }
+  // The estimate may be off by more than 1 if the bin width is close to the
+  // floating-point resolution of the edges, hence the loops.
+  while (x < edges[bin])
+    --bin;
+  while (x >= edges[bin + 1])
+    ++bin;
+  return bin;
 }
 
 } // namespace scipp::core
-- 
2.43.0


From a0f34316f1db09b7bffff0b6b5a960b8434b578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 013/104] fix: lookup of the previous value at NaN gives the
 fill value

---
 lib/core/include/scipp/core/element/event_operations.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/event_operations.h b/lib/core/include/scipp/core/element/event_operations.h
index 936f0a3..8caf0e3 100644
--- a/lib/core/include/scipp/core/element/event_operations.h
+++ b/lib/core/include/scipp/core/element/event_operations.h
@@ -105,7 +105,10 @@ constexpr auto lookup_previous =
     overloaded{map, [](const auto &point, const auto &x, const auto &weights,
                        const auto &fill) {
                  auto it = std::upper_bound(x.begin(), x.end(), point);
-                 return it == x.begin() ? fill : get(weights, --it - x.begin());
+                 // Second condition: `upper_bound` is the end if point is NaN.
+                 return it == x.begin() || !(*--it <= point)
+                            ? fill
+                            : get(weights, it - x.begin());
                }};
 
 namespace map_and_mul_detail {
-- 
2.43.0


From 5ed900226ef22eeeb051d402993582f1bd3a3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 014/104] fix: rebin with integral edges (datetimes) does not
 truncate fractions

---
 lib/core/include/scipp/core/element/rebin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/rebin.h b/lib/core/include/scipp/core/element/rebin.h
index d7f61bc..c27b0f3 100644
--- a/lib/core/include/scipp/core/element/rebin.h
+++ b/lib/core/include/scipp/core/element/rebin.h
@@ -46,7 +46,7 @@ static constexpr auto rebin = overloaded{
           const auto delta =
               std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low, less));
           const auto owidth = std::abs(xo_high - xo_low);
-          const auto scale = delta / owidth;
+          const auto scale = numeric::true_divide(delta, owidth);
           if constexpr (is_ValueAndVariance_v<
                             std::decay_t<decltype(data_old)>>) {
             data_new.value[inew] += data_old.value[iold] * scale;
-- 
2.43.0


From d0e0538f60766a04af9358a0cca1ab4a092d70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:09 +0000
Subject: [PATCH 015/104] fix: unit conversion of integers by a whole factor is
 exact

---
 lib/core/include/scipp/core/element/to_unit.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/element/to_unit.h b/lib/core/include/scipp/core/element/to_unit.h
index 81e3a29..72e8e63 100644
--- a/lib/core/include/scipp/core/element/to_unit.h
+++ b/lib/core/include/scipp/core/element/to_unit.h
@@ -31,8 +31,9 @@ template <class T, class U> T safe_cast(const U x) {
 
 template <class T>
 constexpr auto round = [](const auto x) {
-  if constexpr (std::is_integral_v<T>)
-    return safe_cast<T>(x < 0 ? x - 0.5 : x + 0.5);
+  // Integers need no rounding, going through double would lose precision.
+  if constexpr (std::is_integral_v<T> && !std::is_integral_v<decltype(x)>)
+    return safe_cast<T>(std::round(x));
   else
     return static_cast<T>(x);
 };
-- 
2.43.0


From 3adb8087690c3c6970592e3d32e7e69b8ddc630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:58 +0000
Subject: [PATCH 016/104] fix: format times before 1970 and beyond 2262

---
 lib/core/string.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/core/string.cpp b/lib/core/string.cpp
index 4c59faf..d8f87ab 100644
--- a/lib/core/string.cpp
+++ b/lib/core/string.cpp
@@ -101,7 +101,9 @@ void put_time(std::ostream &os, const std::time_t time_point,
               const bool include_time) {
   std::lock_guard guard_{gmtime_mutex};
   const std::tm *tm = std::gmtime(&time_point);
-  if (include_time)
+  if (tm == nullptr)
+    os << "(datetime out of range, cannot format)";
+  else if (include_time)
     os << std::put_time(tm, "%FT%T");
   else
     os << std::put_time(tm, "%F");
@@ -109,8 +111,6 @@ void put_time(std::ostream &os, const std::time_t time_point,
 
 template <class Rep, class Period>
 std::string to_string(const std::chrono::duration<Rep, Period> &duration) {
-  using Clock = std::chrono::system_clock;
-
   std::ostringstream oss;
 
 #ifdef _WIN32
@@ -120,15 +120,16 @@ std::string to_string(const std::chrono::duration<Rep, Period> &duration) {
   }
 #endif
 
-  // Cast to seconds to be independent of clock precision.
-  // Sub-second digits are formatted manually.
-  put_time(oss,
-           Clock::to_time_t(Clock::time_point{
-               std::chrono::duration_cast<std::chrono::seconds>(duration)}),
-           true);
+  // Round down to seconds to be independent of clock precision, also before
+  // 1970. Sub-second digits are formatted manually. Not using
+  // Clock::time_point since it may overflow.
+  const auto seconds = std::chrono::floor<std::chrono::seconds>(duration);
+  put_time(oss, static_cast<std::time_t>(seconds.count()), true);
   if constexpr (std::ratio_less_v<Period, std::ratio<1, 1>>) {
+    constexpr auto per_second = Period::den / Period::num;
+    const auto subseconds = duration.count() % per_second;
     oss << '.' << std::setw(num_digits<Period>()) << std::setfill('0')
-        << (duration.count() % (Period::den / Period::num));
+        << (subseconds < 0 ? subseconds + per_second : subseconds);
   }
   return oss.str();
 }
-- 
2.43.0


From 5814bac370aae0813b577c85abb1bf184c0c0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:55 +0000
Subject: [PATCH 017/104] fix: powers of units beyond int overflow instead of
 wrapping

---
 lib/units/unit.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/units/unit.cpp b/lib/units/unit.cpp
index 3b18cb6..922a8e6 100644
--- a/lib/units/unit.cpp
+++ b/lib/units/unit.cpp
@@ -3,6 +3,8 @@
 /// @file
 /// @author Simon Heybrock
 /// @author Neil Vaytet
+#include <algorithm>
+#include <limits>
 #include <regex>
 #include <stdexcept>
 
@@ -157,10 +159,14 @@ Unit sqrt(const Unit &a) {
 Unit pow(const Unit &a, const int64_t power) {
   if (a == none)
     return a;
-  if (llnl::units::pow_overflows(a.underlying(), static_cast<int>(power)))
+  // Clamped powers overflow just like the original ones would.
+  const auto exponent = static_cast<int>(
+      std::clamp<int64_t>(power, std::numeric_limits<int>::min(),
+                          std::numeric_limits<int>::max()));
+  if (llnl::units::pow_overflows(a.underlying(), exponent))
     throw except::UnitError("Unsupported unit as result of pow: pow(" +
                             a.name() + ", " + std::to_string(power) + ").");
-  return Unit{a.underlying().pow(static_cast<int>(power))};
+  return Unit{a.underlying().pow(exponent)};
 }
 
 Unit trigonometric(const Unit &a) {
-- 
2.43.0


From 34e62be2b3dc003235b94bbd6eb54f2391fb72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 018/104] fix: grouping int64 labels by int32 groups does not
 truncate the label

---
 lib/core/include/scipp/core/element/bin.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/bin.h b/lib/core/include/scipp/core/element/bin.h
index ac0bdc4..16cadfb 100644
--- a/lib/core/include/scipp/core/element/bin.h
+++ b/lib/core/include/scipp/core/element/bin.h
@@ -136,7 +136,15 @@ static constexpr auto update_indices_by_grouping = overloaded{
     [](auto &index, const auto &x, const auto &groups) {
       if (index == -1)
         return;
-      const auto it = groups.find(x);
+      using Key = typename std::decay_t<decltype(groups)>::key_type;
+      // int64 coords may not be representable as int32 group label.
+      if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, Key>) {
+        if (static_cast<Key>(x) != x) {
+          index = -1;
+          return;
+        }
+      }
+      const auto it = groups.find(static_cast<const Key &>(x));
       index *= scipp::size(groups);
       index = (it == groups.end()) ? -1 : (index + it->second);
     }};
-- 
2.43.0


From 26285101f829075364db468c3f09218874a0ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:28 +0000
Subject: [PATCH 019/104] fix: setVariances respects the memory layout of its
 argument

---
 lib/variable/variable.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index a8e8368..069e715 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -307,8 +307,15 @@ void Variable::setVariances(const Variable &v) {
   if (v.is_valid()) {
     core::expect::equals(unit(), v.unit());
     core::expect::equals(dims(), v.dims());
+    // The model stores variances in the memory layout of the values. This may
+    // differ from that of `v`, e.g., if either is transposed or `v` is a slice.
+    auto variances(*this);
+    variances.m_object = v.data().makeDefaultFromParent(dims().volume());
+    copy(v, variances);
+    data().setVariances(variances);
+  } else {
+    data().setVariances(v);
   }
-  data().setVariances(v);
 }
 
 namespace detail {
-- 
2.43.0


From 91e357a84b2a97d08c3a0c3609cac6b03d682fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:52 +0000
Subject: [PATCH 020/104] fix: nansum of a scalar NaN is zero

---
 lib/variable/reduction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/variable/reduction.cpp b/lib/variable/reduction.cpp
index 98e1c60..27db027 100644
--- a/lib/variable/reduction.cpp
+++ b/lib/variable/reduction.cpp
@@ -164,6 +164,8 @@ Variable sum(const Variable &var) {
 
 /// Return the sum along all dimensions, nans treated as zero.
 Variable nansum(const Variable &var) {
+  if (var.dims().empty())
+    return nansum(var, Dim::Invalid);
   return reduce_all_dims(var, [](auto &&..._) { return nansum(_...); });
 }
 
-- 
2.43.0


From a9ed363033b3e760caa27cc0cdd192158e3daddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 021/104] fix: in-place operation on bins does not change
 elements if the unit cannot be set

---
 lib/variable/include/scipp/variable/bin_array_variable.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/variable/include/scipp/variable/bin_array_variable.tcc b/lib/variable/include/scipp/variable/bin_array_variable.tcc
index c27c987..ac70c61 100644
--- a/lib/variable/include/scipp/variable/bin_array_variable.tcc
+++ b/lib/variable/include/scipp/variable/bin_array_variable.tcc
@@ -151,6 +151,7 @@ public:
     if (elem_unit(var) != u && var.is_slice())
       throw except::UnitError("Partial view on data of variable cannot be "
                               "used to change the unit.");
+    this->data(var).expect_can_set_unit(u); // buffer may be a slice
   }
   void set_elem_unit(Variable &var, const units::Unit &u) const override {
     std::get<2>(var.constituents<T>()).setUnit(u);
-- 
2.43.0


From 5f51fd8900cc46547d00f5c8b1f8acffce7e408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:03 +0000
Subject: [PATCH 022/104] fix: renaming dimensions of a data array keeps its
 name

---
 lib/dataset/data_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index 5403ed1..ab48ffd 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -211,7 +211,7 @@ DataArray DataArray::rename_dims(const std::vector<std::pair<Dim, Dim>> &names,
   return DataArray(m_data->rename_dims(names, fail_on_unknown),
                    m_coords->rename_dims(names, false),
                    m_masks->rename_dims(names, false),
-                   m_attrs->rename_dims(names, false));
+                   m_attrs->rename_dims(names, false), m_name);
 }
 
 DataArray DataArray::as_const() const {
-- 
2.43.0


From 7647cb06a055e18775af098d24a1f1a3f53c896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:09 +0000
Subject: [PATCH 023/104] fix: a copy of a data array without attributes can be
 sliced

---
 lib/dataset/data_array.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index ab48ffd..c675228 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -25,8 +25,10 @@ DataArray::DataArray(const DataArray &other, const AttrPolicy attrPolicy)
     : m_name(other.m_name), m_data(copy_shared(other.m_data)),
       m_coords(copy_shared(other.m_coords)),
       m_masks(copy_shared(other.m_masks)),
-      m_attrs(attrPolicy == AttrPolicy::Keep ? copy_shared(other.m_attrs)
-                                             : std::make_shared<Attrs>()),
+      m_attrs(attrPolicy == AttrPolicy::Keep || !other.m_attrs
+                  ? copy_shared(other.m_attrs)
+                  : std::make_shared<Attrs>(other.m_attrs->sizes(),
+                                            typename Attrs::holder_type{})),
       m_readonly(false) {}
 
 DataArray::DataArray(const DataArray &other)
-- 
2.43.0


From e53812d6fe16f47cc6b250983067af2084a7978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 024/104] fix: a failing setSlice changes nothing

---
 lib/dataset/dataset.cpp    | 3 +++
 lib/dataset/sized_dict.cpp | 2 ++
 lib/variable/variable.cpp  | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index bdc19b0..9d60f88 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -257,6 +257,9 @@ Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
 }
 
 Dataset &Dataset::setSlice(const Slice &s, const Variable &data) {
+  // Validate slice on all items as a dry-run
+  for (const auto &item : m_data)
+    item.second.data().validateSlice(s, data);
   for (auto &&item : *this)
     item.setSlice(s, data);
   return *this;
diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index bc1e31a..fa86bf3 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -316,6 +316,8 @@ void SizedDict<Key, Value>::validateSlice(const Slice &s,
                                    "' via slice since it is implicitly "
                                    "broadcast along the slice dimension '" +
                                    to_string(s.dim()) + "'.");
+    } else if (!var.is_readonly() && var.dims().contains(s.dim())) {
+      var.validateSlice(s, item);
     }
   }
 }
diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index 069e715..c1449ee 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -227,6 +227,8 @@ void Variable::validateSlice(const Slice &s, const Variable &data) const {
                             to_string(variableFactory().elem_dtype(data)) +
                             ". Variable has dtype " +
                             to_string(variableFactory().elem_dtype(*this)));
+  scipp::expect::includes(slice(s).dims(), data.dims());
+  expect_writable();
 }
 
 Variable &Variable::setSlice(const Slice params, const Variable &data) {
-- 
2.43.0


From e38f02801b8225648f05ac7d8cc7fc05eb235b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 025/104] fix: set a slice of a dataset to a data array with
 coordinates

---
 lib/dataset/dataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index 9d60f88..a481f59 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -248,11 +248,11 @@ Dataset &Dataset::setSlice(const Slice &s, const Dataset &data) {
 Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
   // Validate slice on all items as a dry-run
   expect::coords_are_superset(slice(s).coords(), data.coords(), "");
-  for (const auto &item : m_data)
-    item.second.validateSlice(s, data);
+  for (const auto &item : *this)
+    item.validateSlice(s, data);
   // Only if all items checked for dry-run does modification go-ahead
-  for (auto &&[_, val] : m_data)
-    val.setSlice(s, data);
+  for (auto &&item : *this)
+    item.setSlice(s, data);
   return *this;
 }
 
-- 
2.43.0


From 1e492a0f3b1d813d9c7474c15d0441f3c1497ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 026/104] fix: failing in-place operation of data arrays does
 not change masks

---
 lib/dataset/arithmetic.cpp                  |  1 +
 lib/dataset/bins.cpp                        |  7 +++++--
 lib/dataset/dataset.cpp                     | 12 +++++++++++-
 lib/dataset/include/scipp/dataset/dataset.h |  4 ++++
 lib/templates/dataset_inplace.cpp.in        |  7 +++++--
 5 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/dataset/arithmetic.cpp b/lib/dataset/arithmetic.cpp
index 929e6f6..51a7904 100644
--- a/lib/dataset/arithmetic.cpp
+++ b/lib/dataset/arithmetic.cpp
@@ -27,6 +27,7 @@ template <class T, class Op> void dry_run_op(T &&a, const Variable &b, Op op) {
 
 template <class T, class Op> void dry_run_op(T &&a, const DataArray &b, Op op) {
   expect::coords_are_superset(a, b, "");
+  expect_can_union_or_in_place(a.masks(), b.masks());
   dry_run_op(a, b.data(), op);
 }
 
diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 7dc350f..af7d60e 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -313,10 +313,11 @@ void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
 
 void append(DataArray &a, const DataArray &b) {
   expect::coords_are_superset(a, b, "bins.append");
-  union_or_in_place(a.masks(), b.masks());
+  expect_can_union_or_in_place(a.masks(), b.masks());
   auto data = a.data();
   append(data, b.data());
   a.setData(data);
+  union_or_in_place(a.masks(), b.masks());
 }
 
 Variable histogram(const Variable &data, const Variable &binEdges) {
@@ -390,7 +391,8 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   // Coords along dim are ignored since "binning" is dynamic for buckets.
   expect::coords_are_superset(array, histogram.slice({dim, 0}), "bins.scale");
   // scale applies masks along dim but others are kept
-  union_or_in_place(array.masks(), histogram.slice({dim, 0}).masks());
+  const auto masks = histogram.slice({dim, 0}).masks();
+  expect_can_union_or_in_place(array.masks(), masks);
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
   const auto &edges = histogram.meta()[dim];
@@ -407,5 +409,6 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
                        core::element::event::map_and_mul_sorted_edges,
                        "bins.scale");
   }
+  union_or_in_place(array.masks(), masks);
 }
 } // namespace scipp::dataset::buckets
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index a481f59..47c645b 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -340,7 +340,8 @@ typename Masks::holder_type union_or(const Masks &currentMasks,
   return out;
 }
 
-void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+void expect_can_union_or_in_place(const Masks &currentMasks,
+                                  const Masks &otherMasks) {
   using core::to_string;
   using units::to_string;
 
@@ -364,9 +365,18 @@ void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
                 currentMasks[key].unit() != scipp::units::none)) {
       throw except::UnitError(" Cannot combine a unit-specified mask '" + key +
                               "' in operation");
+    } else if (it != currentMasks.end()) {
+      scipp::expect::includes(it->second.dims(), item.dims());
+    } else {
+      // Throws if the mask does not fit
+      Masks(currentMasks.sizes(), {}).set(key, item);
     }
   }
+}
 
+void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+  // Validate all masks first, to avoid a partial update on failure
+  expect_can_union_or_in_place(currentMasks, otherMasks);
   for (const auto &[key, item] : otherMasks) {
     const auto it = currentMasks.find(key);
     if (it == currentMasks.end()) {
diff --git a/lib/dataset/include/scipp/dataset/dataset.h b/lib/dataset/include/scipp/dataset/dataset.h
index 4aff536..c7fbe02 100644
--- a/lib/dataset/include/scipp/dataset/dataset.h
+++ b/lib/dataset/include/scipp/dataset/dataset.h
@@ -298,6 +298,10 @@ SCIPP_DATASET_EXPORT
 typename Masks::holder_type union_or(const Masks &currentMasks,
                                      const Masks &otherMasks);
 
+/// Throw if `union_or_in_place` with the same arguments would fail.
+SCIPP_DATASET_EXPORT void expect_can_union_or_in_place(const Masks &masks,
+                                                       const Masks &otherMasks);
+
 /// Union the masks of the two proxies.
 /// If any of the masks repeat they are OR'ed.
 /// The result is stored in the first view.
diff --git a/lib/templates/dataset_inplace.cpp.in b/lib/templates/dataset_inplace.cpp.in
index c91e946..66bffb4 100644
--- a/lib/templates/dataset_inplace.cpp.in
+++ b/lib/templates/dataset_inplace.cpp.in
@@ -15,8 +15,9 @@ DataArray &@NAME@(DataArray &lhs, const Variable &rhs) {
 }
 DataArray &@NAME@(DataArray &lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
-  union_or_in_place(lhs.masks(), rhs.masks());
+  expect_can_union_or_in_place(lhs.masks(), rhs.masks());
   @NAME@(lhs.data(), rhs.data());
+  union_or_in_place(lhs.masks(), rhs.masks());
   return lhs;
 }
 DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
@@ -25,8 +26,10 @@ DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
 }
 DataArray @NAME@(DataArray &&lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
+  expect_can_union_or_in_place(lhs.masks(), rhs.masks());
+  @NAME@(lhs.data(), rhs.data());
   union_or_in_place(lhs.masks(), rhs.masks());
-  return @NAME@(std::move(lhs), rhs.data());
+  return std::move(lhs);
 }
 
 } // namespace scipp::dataset
-- 
2.43.0


From 54fe061cb511e5f87ed07277ec1080ee5aa22cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:42 +0000
Subject: [PATCH 027/104] fix: in-place operations accept matching coords with
 NaN, like other operations

---
 lib/dataset/except.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/except.cpp b/lib/dataset/except.cpp
index 98affdd..a0ac6ed 100644
--- a/lib/dataset/except.cpp
+++ b/lib/dataset/except.cpp
@@ -68,7 +68,8 @@ void coords_are_superset(const Coords &a_coords, const Coords &b_coords,
         continue;
     }
     const auto &a_coord = a_coords[key];
-    if (a_coord.is_aligned() && b_coord.is_aligned() && a_coord != b_coord)
+    if (a_coord.is_aligned() && b_coord.is_aligned() &&
+        !equals_nan(a_coord, b_coord))
       throw except::CoordMismatchError(key, a_coord, b_coord, opname);
   }
 }
-- 
2.43.0


From b31747f83c1c45cad716fc6af72ef2ec1f826219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 028/104] fix: flatten without labels keeps the name of a data
 array

---
 lib/dataset/shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index b2f0d79..515f2d9 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -282,7 +282,7 @@ DataArray flatten(const DataArray &a,
   const auto &labels = from_labels.value_or(a.dims().labels());
   if (from_labels.has_value() && labels.empty())
     return DataArray(flatten(a.data(), labels, to_dim), a.coords(), a.masks(),
-                     a.attrs());
+                     a.attrs(), a.name());
   expect_dimension_subset(a.dims(), labels);
   return dataset::transform(a, [&](const auto &in) {
     auto var = (&in == &a.data()) ? in : maybe_broadcast(in, labels, a.dims());
-- 
2.43.0


From a39249f4b6bcc022090b54c8d8e9267fc989f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 029/104] fix: extract accepts conditions that are not
 contiguous

---
 lib/dataset/extract.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/extract.cpp b/lib/dataset/extract.cpp
index c3ee1c8..9ce5a9f 100644
--- a/lib/dataset/extract.cpp
+++ b/lib/dataset/extract.cpp
@@ -101,7 +101,9 @@ template <class T> T extract_impl(const T &obj, const Variable &condition) {
         " must be be included in the dimensions of the sliced object " +
         to_string(obj.dims()) + '.');
 
-  auto values = condition.values<bool>().as_span();
+  // Copy ensures contiguous memory layout
+  const auto contiguous = copy(condition);
+  auto values = contiguous.values<bool>().as_span();
   std::vector<scipp::index_pair> indices;
   for (scipp::index i = 0; i < scipp::size(values); ++i) {
     if (i > 0 && values[i - 1] == values[i])
-- 
2.43.0


From 0e5dc2a6afc4148b8c03de01cb136d54ed00aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 030/104] fix: flattening bin edges along any dimension, with
 other dimensions present

---
 lib/dataset/shape.cpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 515f2d9..beceb34 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -213,27 +213,22 @@ Variable fold_bin_edge(const Variable &var, const Dim from_dim,
 Variable flatten_bin_edge(const Variable &var,
                           const scipp::span<const Dim> &from_labels,
                           const Dim to_dim, const Dim bin_edge_dim) {
-  const auto data_shape = var.dims()[bin_edge_dim] - 1;
+  const auto nbin = var.dims()[bin_edge_dim] - 1;
+  const auto left =
+      flatten(var.slice({bin_edge_dim, 0, nbin}), from_labels, to_dim);
+  const auto right =
+      flatten(var.slice({bin_edge_dim, 1, nbin + 1}), from_labels, to_dim);
+  const auto size = left.dims()[to_dim];
 
   // Make sure that the bin edges can be joined together
-  const auto front = var.slice({bin_edge_dim, 0});
-  const auto back = var.slice({bin_edge_dim, data_shape});
-  const auto front_flat = flatten(front, front.dims().labels(), to_dim);
-  const auto back_flat = flatten(back, back.dims().labels(), to_dim);
-  if (front_flat.slice({to_dim, 1, front.dims().volume()}) !=
-      back_flat.slice({to_dim, 0, back.dims().volume() - 1}))
+  if (size == 0 || !equals_nan(left.slice({to_dim, 1, size}),
+                               right.slice({to_dim, 0, size - 1})))
     return {};
 
-  // Make the bulk slice of the coord, leaving out the last bin edge
-  const auto bulk =
-      flatten(var.slice({bin_edge_dim, 0, data_shape}), from_labels, to_dim);
-  auto out_dims = bulk.dims();
-  // To make the container of the right size, we increase to_dim by 1
-  out_dims.resize(to_dim, out_dims[to_dim] + 1);
-  auto out = empty(out_dims, var.unit(), var.dtype(), var.has_variances());
-  copy(bulk, out.slice({to_dim, 0, out_dims[to_dim] - 1}));
-  copy(back_flat.slice({to_dim, back.dims().volume() - 1}),
-       out.slice({to_dim, out_dims[to_dim] - 1}));
+  auto out = concat(
+      std::vector<Variable>{left, right.slice({to_dim, size - 1, size})},
+      to_dim);
+  out.set_aligned(var.is_aligned());
   return out;
 }
 
-- 
2.43.0


From 77618df25fe6a1e801609caabe2aa968cc645096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 031/104] fix: fold checks the length even if another dimension
 is empty

---
 lib/core/dimensions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/dimensions.cpp b/lib/core/dimensions.cpp
index 07f5c1e..f8d0c1a 100644
--- a/lib/core/dimensions.cpp
+++ b/lib/core/dimensions.cpp
@@ -154,7 +154,7 @@ Dimensions fold(const Dimensions &old_dims, const Dim from_dim,
     else
       for (const auto &lab : to_dims.labels())
         new_dims.addInner(lab, to_dims[lab]);
-  if (old_dims.volume() != new_dims.volume())
+  if (old_dims[from_dim] != to_dims.volume())
     throw except::DimensionError(
         "Sizes " + to_string(to_dims) +
         " provided to `fold` not compatible with length '" +
-- 
2.43.0


From d708c2d48da15f722cfa1d420dc9561c33da09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 032/104] fix: resized buffers (as in extract) keep name and
 alignment

---
 lib/dataset/bins.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index af7d60e..9c5ebf6 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -116,10 +116,12 @@ constexpr auto copy_or_resize = [](const auto &var, const Dim dim,
     dims.resize(dim, size);
   // Using variableFactory instead of variable::resize for creating
   // _uninitialized_ variable.
-  return var.dims().contains(dim)
-             ? variable::variableFactory().create(var.dtype(), dims, var.unit(),
-                                                  var.has_variances())
-             : copy(var);
+  if (!var.dims().contains(dim))
+    return copy(var);
+  auto out = variable::variableFactory().create(var.dtype(), dims, var.unit(),
+                                                var.has_variances());
+  out.set_aligned(var.is_aligned());
+  return out;
 };
 } // namespace
 
@@ -135,6 +137,7 @@ DataArray resize_default_init(const DataArray &parent, const Dim dim,
     buffer.masks().set(name, copy_or_resize(var, dim, size));
   for (const auto &[name, var] : parent.attrs())
     buffer.attrs().set(name, copy_or_resize(var, dim, size));
+  buffer.setName(parent.name());
   return buffer;
 }
 
-- 
2.43.0


From 789b93838da05c1adfad3e4ca2872c4bc425ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 033/104] fix: iteration over bins with an empty inner
 dimension

---
 lib/core/include/scipp/core/multi_index.h | 4 +++-
 lib/core/multi_index.cpp                  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/multi_index.h b/lib/core/include/scipp/core/multi_index.h
index 5ecee18..6f50dc6 100644
--- a/lib/core/include/scipp/core/multi_index.h
+++ b/lib/core/include/scipp/core/multi_index.h
@@ -217,7 +217,9 @@ private:
   }
 
   [[nodiscard]] bool current_bin_is_empty() const noexcept {
-    return m_shape[m_nested_dim_index] == 0;
+    // No elements if any dim of the bin has length 0, not only the sliced one.
+    return std::find(m_shape.begin(), m_shape.begin() + m_inner_ndim,
+                     scipp::index{0}) != m_shape.begin() + m_inner_ndim;
   }
 
   struct BinIterator {
diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index 3665b67..b057d5a 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -159,7 +159,7 @@ MultiIndex<N>::MultiIndex(binned_tag, const Dimensions &inner_dims,
   for (scipp::index data = 0; data < N; ++data) {
     load_bin_params(data);
   }
-  if (m_shape[m_nested_dim_index] == 0 || bin_dims.volume() == 0)
+  if (current_bin_is_empty() || bin_dims.volume() == 0)
     seek_bin();
 }
 
-- 
2.43.0


From 9fdfa40ff13abb73a87827737278b528d3ae9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 034/104] fix: extract accepts metadata with NaN

---
 lib/dataset/bins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 9c5ebf6..fff8b24 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -39,8 +39,8 @@ constexpr auto copy_or_match = [](const auto &a, auto &&b, const Dim dim,
                                   const Variable &dstIndices) {
   if (a.dims().contains(dim))
     copy_slices(a, b, dim, srcIndices, dstIndices);
-  else
-    core::expect::equals(a, b);
+  else if (!equals_nan(a, b))
+    core::expect::equals(a, b); // throws
 };
 
 constexpr auto expect_matching_keys = [](const auto &a, const auto &b) {
-- 
2.43.0


From 4d5b307c61ae35484796a58f175591889971609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 035/104] fix: merge accepts matching items with NaN

---
 lib/dataset/operations.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/dataset/operations.cpp b/lib/dataset/operations.cpp
index be94246..0944209 100644
--- a/lib/dataset/operations.cpp
+++ b/lib/dataset/operations.cpp
@@ -24,9 +24,10 @@ auto union_(const Dataset &a, const Dataset &b) {
   for (const auto &item : a)
     out.emplace(item.name(), item);
   for (const auto &item : b) {
-    if (const auto it = a.find(item.name()); it != a.end())
-      core::expect::equals(item, *it);
-    else
+    if (const auto it = a.find(item.name()); it != a.end()) {
+      if (!equals_nan(item, *it))
+        core::expect::equals(item, *it); // throws
+    } else
       out.emplace(item.name(), item);
   }
   return out;
-- 
2.43.0


From 4b477bd1591bca17011a8525bef79f91f9916715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 036/104] fix: concat joins bin edges with matching NaN

---
 lib/dataset/shape.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index beceb34..57d5513 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -37,8 +37,10 @@ Variable join_edges(const scipp::span<const Variable> vars, const Dim dim) {
     if (tmp.empty()) {
       tmp.emplace_back(var);
     } else {
-      core::expect::equals(tmp.back().slice({dim, tmp.back().dims()[dim] - 1}),
-                           var.slice({dim, 0}));
+      const auto last = tmp.back().slice({dim, tmp.back().dims()[dim] - 1});
+      const auto first = var.slice({dim, 0});
+      if (!equals_nan(last, first))
+        core::expect::equals(last, first); // throws
       tmp.emplace_back(var.slice({dim, 1, var.dims()[dim]}));
     }
   }
-- 
2.43.0


From 38a87ac7ed8d65855188b5f5cbc2967fbae0c27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 037/104] fix: resize of a dataset to the shape of a dataset

---
 lib/dataset/shape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 57d5513..9b69758 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -166,8 +166,8 @@ DataArray resize(const DataArray &a, const Dim dim, const DataArray &shape) {
 Dataset resize(const Dataset &d, const Dim dim, const Dataset &shape) {
   Dataset result;
   for (const auto &data : d)
-    result.setData(data.name(), resize(data, dim, shape[data.name()]));
-  return result;
+    result.setDataInit(data.name(), resize(data, dim, shape[data.name()]));
+  return std::move(result).or_empty();
 }
 
 namespace {
-- 
2.43.0


From 214f6cee07f46288289781199d548391ed8daca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 038/104] fix: mean and nanmean with masks keep the order of
 dimensions

---
 lib/dataset/variable_reduction.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/dataset/variable_reduction.cpp b/lib/dataset/variable_reduction.cpp
index 9a1428b..fb3a388 100644
--- a/lib/dataset/variable_reduction.cpp
+++ b/lib/dataset/variable_reduction.cpp
@@ -17,12 +17,21 @@
 namespace scipp::dataset {
 
 namespace {
+/// Return union of masks that depend on dim, with dims in the order of var.
+Variable ordered_irreducible_mask(const Variable &var, const Dim dim,
+                                  const Masks &masks) {
+  auto mask_union = irreducible_mask(masks, dim);
+  if (!mask_union.is_valid())
+    return mask_union;
+  return transpose(mask_union,
+                   intersection(var.dims(), mask_union.dims()).labels());
+}
+
 template <class Op>
 Variable reduce_impl(const Variable &var, const Dim dim, const Masks &masks,
                      const FillValue fill, const Op &op) {
-  if (auto mask_union = irreducible_mask(masks, dim); mask_union.is_valid()) {
-    mask_union = transpose(
-        mask_union, intersection(var.dims(), mask_union.dims()).labels());
+  if (const auto mask_union = ordered_irreducible_mask(var, dim, masks);
+      mask_union.is_valid()) {
     return op(
         where(mask_union, dense_special_like(var, Dimensions{}, fill), var),
         dim);
@@ -72,7 +81,7 @@ Variable any(const Variable &var, const Dim dim, const Masks &masks) {
 }
 
 Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = ordered_irreducible_mask(var, dim, masks);
       mask_union.is_valid()) {
     const auto count = sum(~mask_union, dim);
     return mean_impl(where(mask_union, zero_like(var), var), dim, count);
@@ -81,7 +90,7 @@ Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
 }
 
 Variable nanmean(const Variable &var, const Dim dim, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = ordered_irreducible_mask(var, dim, masks);
       mask_union.is_valid()) {
     const auto count = sum(
         where(mask_union, makeVariable<bool>(Values{false}), ~isnan(var)), dim);
-- 
2.43.0


From be976a7efee92eaa2064e8e7c8d58ed2430cb504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:44 +0000
Subject: [PATCH 039/104] fix: nansum of a 0-D data array

---
 lib/templates/dataset_reduction.cpp.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/templates/dataset_reduction.cpp.in b/lib/templates/dataset_reduction.cpp.in
index 626a310..550d205 100644
--- a/lib/templates/dataset_reduction.cpp.in
+++ b/lib/templates/dataset_reduction.cpp.in
@@ -13,6 +13,10 @@
 namespace scipp::dataset {
 
 DataArray @NAME@(const DataArray &a) {
+  if (a.dims().empty()) // no dimension to drop, no mask to apply
+    return apply_to_data_and_drop_dim(
+        a, [](const Variable &var, const Dim) { return @NAME@(var); },
+        Dim::Invalid);
   return variable::reduce_all_dims(a, [](auto &&... args) {
     return @NAME@(std::forward<decltype(args)>(args)...);
   });
-- 
2.43.0


From 4c6a240a75e28a9486b5ecaf98120402f4879a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 040/104] fix: rebin gives the same result for any memory
 layout

---
 lib/variable/rebin.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index 794efb8..ce669aa 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -28,6 +28,12 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
   const auto oldSize = oldT.dims()[dim];
   const auto newSize = newT.dims()[dim];
 
+  if (oldCoord.unit() != newCoord.unit())
+    throw except::UnitError(
+        "Input and output bin edges must have the same unit.");
+  if (oldSize == 0)
+    return; // no input, newT is zero
+
   const auto *xold = oldCoord.values<T>().data();
   const auto *xnew = newCoord.values<T>().data();
 
@@ -38,9 +44,21 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
     // delta is the overlap of the bins on the x axis
     const auto delta = std::abs(std::min<double>(xn_high, xo_high, Less{}) -
                                 std::max<double>(xn_low, xo_low, Less{}));
+    if (delta == 0.0)
+      return; // no overlap, also a NaN must not contribute
     const auto owidth = std::abs(xo_high - xo_low);
-    slice += oldT.slice({dim, iold}) *
-             ((delta / owidth) * (slice.unit() / oldT.unit()));
+    const auto scale = (delta / owidth) * (slice.unit() / oldT.unit());
+    const auto old = oldT.slice({dim, iold});
+    if (oldT.has_variances()) {
+      // As for the values, only a fraction of the variance is in the overlap.
+      auto fraction = values(old) * scale;
+      auto var = variances(old) * scale;
+      var.setUnit(fraction.unit());
+      fraction.setVariances(var);
+      slice += fraction;
+    } else {
+      slice += old * scale;
+    }
   };
   auto accumulate_bin = [&](auto &&slice, const auto xn_low,
                             const auto xn_high) {
-- 
2.43.0


From eb20da2b08c2435f1e46ef8cce687b164e4c59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 041/104] fix: rebin to bins of zero width does not multiply
 zero by NaN

---
 lib/core/include/scipp/core/element/rebin.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/core/include/scipp/core/element/rebin.h b/lib/core/include/scipp/core/element/rebin.h
index c27b0f3..809b4c2 100644
--- a/lib/core/include/scipp/core/element/rebin.h
+++ b/lib/core/include/scipp/core/element/rebin.h
@@ -45,14 +45,16 @@ static constexpr auto rebin = overloaded{
           using std::max;
           const auto delta =
               std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low, less));
-          const auto owidth = std::abs(xo_high - xo_low);
-          const auto scale = numeric::true_divide(delta, owidth);
-          if constexpr (is_ValueAndVariance_v<
-                            std::decay_t<decltype(data_old)>>) {
-            data_new.value[inew] += data_old.value[iold] * scale;
-            data_new.variance[inew] += data_old.variance[iold] * scale;
-          } else {
-            data_new[inew] += data_old[iold] * scale;
+          if (delta > 0) { // bins may have zero width
+            const auto owidth = std::abs(xo_high - xo_low);
+            const auto scale = numeric::true_divide(delta, owidth);
+            if constexpr (is_ValueAndVariance_v<
+                              std::decay_t<decltype(data_old)>>) {
+              data_new.value[inew] += data_old.value[iold] * scale;
+              data_new.variance[inew] += data_old.variance[iold] * scale;
+            } else {
+              data_new[inew] += data_old[iold] * scale;
+            }
           }
           if (less(xo_high, xn_high)) {
             iold++;
-- 
2.43.0


From 290ad12d666704f4c6b4587d4c6fc9b555af5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 042/104] fix: histogram of bin edges along another coordinate
 read beyond the data

---
 lib/dataset/histogram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/dataset/histogram.cpp b/lib/dataset/histogram.cpp
index 2f7187a..5ace514 100644
--- a/lib/dataset/histogram.cpp
+++ b/lib/dataset/histogram.cpp
@@ -47,6 +47,9 @@ DataArray histogram(const DataArray &events, const Variable &binEdges) {
         dim, con_bin_edges);
   } else if (!is_histogram(events, dim)) {
     const auto event_dim = events.coords().dim_of(dim);
+    if (core::is_edges(events.dims(), events.coords()[dim].dims(), event_dim))
+      throw except::BinEdgeError("Expected coordinate for each element of the "
+                                 "data, got bin edges.");
     result = apply_and_drop_dim(
         events,
         [dim](const DataArray &events_, const Dim event_dim_,
-- 
2.43.0


From cddb60a41e10420f5fed821e9d9ed17a43bbbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 043/104] fix: histogram with transposed coord and edges of
 different dtype

---
 lib/dataset/histogram.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/histogram.cpp b/lib/dataset/histogram.cpp
index 5ace514..78d2807 100644
--- a/lib/dataset/histogram.cpp
+++ b/lib/dataset/histogram.cpp
@@ -76,8 +76,9 @@ DataArray histogram(const DataArray &events, const Variable &binEdges) {
           // matters, users should ensure that they use bin edges and coord with
           // the same dtype.
           const auto dt = common_type(binEdges_, cont_coord);
-          const auto promoted_coord =
-              astype(cont_coord, dt, CopyPolicy::TryAvoid);
+          // The promoted coord may have a different memory layout.
+          const auto promoted_coord = as_contiguous(
+              astype(cont_coord, dt, CopyPolicy::TryAvoid), event_dim_);
           const auto promoted_edges =
               astype(binEdges_, dt, CopyPolicy::TryAvoid);
           return transform_subspan(
-- 
2.43.0


From 8017e867eb203f5c93d9b6d1a9c4f2056c3dcd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 044/104] fix: rebin and histogram with masks keep the order of
 dimensions

---
 lib/dataset/dataset_operations_common.h |  4 ++++
 lib/dataset/operations.cpp              | 13 ++++++++++++-
 lib/dataset/rebin.cpp                   |  2 +-
 lib/dataset/variable_reduction.cpp      | 10 ----------
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/lib/dataset/dataset_operations_common.h b/lib/dataset/dataset_operations_common.h
index 2f503c6..430a8f9 100644
--- a/lib/dataset/dataset_operations_common.h
+++ b/lib/dataset/dataset_operations_common.h
@@ -133,6 +133,10 @@ template <class T, class Func> DataArray transform(const T &a, Func func) {
 [[nodiscard]] Variable any(const Variable &var, const Dim dim,
                            const Masks &masks);
 
+[[nodiscard]] Variable ordered_irreducible_mask(const Variable &var,
+                                                const Dim dim,
+                                                const Masks &masks);
+
 [[nodiscard]] Variable
 masked_data(const DataArray &array, const Dim dim,
             const std::optional<Variable> &fill_value = std::nullopt);
diff --git a/lib/dataset/operations.cpp b/lib/dataset/operations.cpp
index 0944209..11711c6 100644
--- a/lib/dataset/operations.cpp
+++ b/lib/dataset/operations.cpp
@@ -8,6 +8,7 @@
 #include "scipp/variable/creation.h"
 #include "scipp/variable/misc_operations.h"
 #include "scipp/variable/reduction.h"
+#include "scipp/variable/shape.h"
 #include "scipp/variable/util.h"
 
 #include "scipp/dataset/dataset.h"
@@ -112,13 +113,23 @@ Dataset copy(const Dataset &dataset, Dataset &&out,
   return std::move(out);
 }
 
+/// Return union of masks that depend on dim, with dims in the order of var.
+Variable ordered_irreducible_mask(const Variable &var, const Dim dim,
+                                  const Masks &masks) {
+  auto mask_union = irreducible_mask(masks, dim);
+  if (!mask_union.is_valid())
+    return mask_union;
+  return transpose(mask_union,
+                   intersection(var.dims(), mask_union.dims()).labels());
+}
+
 /// Return data of data array, applying masks along dim if applicable.
 ///
 /// Only in the latter case a copy is returned. Masked values are replaced by
 /// fill_value. If not provided, values are replaced by zero.
 Variable masked_data(const DataArray &array, const Dim dim,
                      const std::optional<Variable> &fill_value) {
-  const auto mask = irreducible_mask(array.masks(), dim);
+  const auto mask = ordered_irreducible_mask(array.data(), dim, array.masks());
   if (mask.is_valid()) {
     const auto &data = array.data();
     const auto fill = fill_value.value_or(zero_like(array.data()));
diff --git a/lib/dataset/rebin.cpp b/lib/dataset/rebin.cpp
index a18fddf..8b7f8aa 100644
--- a/lib/dataset/rebin.cpp
+++ b/lib/dataset/rebin.cpp
@@ -13,7 +13,7 @@ namespace scipp::dataset {
 
 Variable rebin(const Variable &var, const Dim dim, const Variable &oldCoord,
                const Variable &newCoord, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = ordered_irreducible_mask(var, dim, masks);
       mask_union.is_valid()) {
     return rebin(where(mask_union, zero_like(var), var), dim, oldCoord,
                  newCoord);
diff --git a/lib/dataset/variable_reduction.cpp b/lib/dataset/variable_reduction.cpp
index fb3a388..b50efe5 100644
--- a/lib/dataset/variable_reduction.cpp
+++ b/lib/dataset/variable_reduction.cpp
@@ -17,16 +17,6 @@
 namespace scipp::dataset {
 
 namespace {
-/// Return union of masks that depend on dim, with dims in the order of var.
-Variable ordered_irreducible_mask(const Variable &var, const Dim dim,
-                                  const Masks &masks) {
-  auto mask_union = irreducible_mask(masks, dim);
-  if (!mask_union.is_valid())
-    return mask_union;
-  return transpose(mask_union,
-                   intersection(var.dims(), mask_union.dims()).labels());
-}
-
 template <class Op>
 Variable reduce_impl(const Variable &var, const Dim dim, const Masks &masks,
                      const FillValue fill, const Op &op) {
-- 
2.43.0


From ad39d5b97da26a86de5d96247f463e4ef014dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 045/104] fix: binning along an existing dimension works for
 any memory layout

Edges that are not contiguous and 2-D bin-edge coords with the binned dimension
not the inner one were rejected.
---
 lib/dataset/bin.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 384557f..37ad04c 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -13,6 +13,7 @@
 #include "scipp/variable/reduction.h"
 #include "scipp/variable/shape.h"
 #include "scipp/variable/subspan_view.h"
+#include "scipp/variable/util.h"
 #include "scipp/variable/variable_factory.h"
 
 #include "scipp/dataset/bin.h"
@@ -339,18 +340,23 @@ public:
         // algorithm, `indices`, containing the index of the target bin for
         // every input event. This is unrelated and varies independently,
         // depending on parameters of the input.
+        const bool histogram =
+            bin_coords.count(dim) && bin_coords.at(dim).dims().contains(dim) &&
+            bin_coords.at(dim).dims()[dim] ==
+                (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
         if (key.ndim() == 1 && // index setup not implemented for this case
             bin_coords.count(dim) && m_offsets.dims().empty() &&
             bin_coords.at(dim).dims().contains(dim) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
-          const bool histogram =
-              bin_coord.dims()[dim] ==
-              (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
-          auto begin =
-              begin_edge(histogram ? left_edge(bin_coord) : bin_coord, key);
-          auto end = histogram ? end_edge(right_edge(bin_coord), key)
-                               : begin + 2 * units::none;
+          const auto con_key = as_contiguous(key, dim);
+          const auto nedge = bin_coord.dims()[dim];
+          auto begin = begin_edge(
+              histogram ? bin_coord.slice({dim, 0, nedge - 1}) : bin_coord,
+              con_key);
+          auto end = histogram
+                         ? end_edge(bin_coord.slice({dim, 1, nedge}), con_key)
+                         : begin + 2 * units::none;
           // When we have bin edges (of length 2) for a dimension that is not
           // a dimension of the input it needs to be squeezed to avoid problems
           // in various places later on.
@@ -364,7 +370,7 @@ public:
           m_offsets = begin * inner_volume;
           // Mask out any output bin edges that need not be considered since
           // there is no overlap between given input and output bin.
-          const auto masked_key = make_bins_no_validate(indices_, dim, key);
+          const auto masked_key = make_bins_no_validate(indices_, dim, con_key);
           update_indices_by_binning(indices, get_coord(dim), masked_key,
                                     linspace);
         } else {
-- 
2.43.0


From ca0bc39427f4ef4019f3a9af9370dc1c8a77b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 046/104] fix: binning events does not rely on bin coords that
 are not edges or have another unit

Events outside the neighborhood of a bin center were dropped, and bin edges in
units other than those of the events were compared by value.
---
 lib/dataset/bin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 37ad04c..5a3bd6f 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -347,6 +347,10 @@ public:
         if (key.ndim() == 1 && // index setup not implemented for this case
             bin_coords.count(dim) && m_offsets.dims().empty() &&
             bin_coords.at(dim).dims().contains(dim) &&
+            // A bin-coord that is not bin edges (e.g., bin centers) tells
+            // nothing about where the events are.
+            (histogram || !coords.count(dim)) &&
+            bin_coords.at(dim).unit() == key.unit() &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
           const auto con_key = as_contiguous(key, dim);
-- 
2.43.0


From 77934c9afbdf31d907023fc8e41e04fd7edd89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 047/104] fix: binning along several existing dimensions puts
 events into the right bins

Offsets were set for more than one dimension if the first one has length 1, and
for dimensions that are not the outermost one.
---
 lib/dataset/bin.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 5a3bd6f..b69c1dc 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -311,6 +311,9 @@ public:
     };
     m_offsets = makeVariable<scipp::index>(Values{0}, units::none);
     m_nbin = dims().volume() * units::none;
+    // Number of target bins of the dims handled so far. Offsets can be set only
+    // for the outermost dim, since they assume that all other dims are inner.
+    scipp::index outer_volume = 1;
     for (const auto &[action, dim, key] : m_actions) {
       if (action == AxisAction::Group)
         update_indices_by_grouping(indices, get_coord(dim), key);
@@ -345,7 +348,7 @@ public:
             bin_coords.at(dim).dims()[dim] ==
                 (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
         if (key.ndim() == 1 && // index setup not implemented for this case
-            bin_coords.count(dim) && m_offsets.dims().empty() &&
+            bin_coords.count(dim) && outer_volume == 1 &&
             bin_coords.at(dim).dims().contains(dim) &&
             // A bin-coord that is not bin edges (e.g., bin centers) tells
             // nothing about where the events are.
@@ -387,7 +390,7 @@ public:
         // to bins.
         // Note that this is only possible (in this simple manner) if there are
         // no other actions affecting output dimensions.
-        if (m_offsets.dims().empty() && m_dims[dim] == m_dims.volume()) {
+        if (outer_volume == 1 && m_dims[dim] == m_dims.volume()) {
           // Offset to output bin tracked using base offset for input bins
           m_nbin = scipp::index{1} * units::none;
           m_offsets = make_range(0, m_dims[dim], 1, dim);
@@ -398,6 +401,7 @@ public:
       } else if (action == AxisAction::Join) {
         ; // target bin 0 for all
       }
+      outer_volume *= m_dims[dim];
     }
   }
 
-- 
2.43.0


From 6af464116979ddd713e6950212d45db65da05498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 048/104] fix: binning with 2-D bin edges that are not sorted
 along a joined dimension

The exclusive scan of sub-bin sizes requires ascending offsets, otherwise it
read out of bounds.
---
 lib/dataset/bin.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index b69c1dc..355e5b6 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -2,6 +2,7 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <algorithm>
 #include <numeric>
 #include <set>
 
@@ -354,7 +355,12 @@ public:
             // nothing about where the events are.
             (histogram || !coords.count(dim)) &&
             bin_coords.at(dim).unit() == key.unit() &&
-            allsorted(bin_coords.at(dim), dim)) {
+            // Offsets must be ascending along all dims that are joined.
+            std::all_of(bin_coords.at(dim).dims().begin(),
+                        bin_coords.at(dim).dims().end(), [&](const auto d) {
+                          return !m_dims.contains(d) ||
+                                 allsorted(bin_coords.at(dim), d);
+                        })) {
           const auto &bin_coord = bin_coords.at(dim);
           const auto con_key = as_contiguous(key, dim);
           const auto nedge = bin_coord.dims()[dim];
-- 
2.43.0


From 176e5c569decb9d8446c7f3a5ba9679136cb979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:35 +0000
Subject: [PATCH 049/104] fix: groupby sum of bool data with masks

The replacement for masked elements had another dtype than the data.
---
 lib/dataset/groupby.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 579e701..14c90a1 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -72,8 +72,10 @@ template <class Op, class Groups>
 void reduce_(Op op, const Dim reductionDim, const Variable &out_data,
              const DataArray &data, const Dim dim, const Groups &groups,
              const FillValue fill) {
+  // ZeroNotBool is for the output, the replacement must have the dtype of data.
   const auto mask_replacement =
-      special_like(Variable(data.data(), Dimensions{}), fill);
+      special_like(Variable(data.data(), Dimensions{}),
+                   fill == FillValue::ZeroNotBool ? FillValue::Default : fill);
   auto mask = irreducible_mask(data.masks(), reductionDim);
   const auto process = [&](const auto &range) {
     // Apply to each group, storing result in output slice
-- 
2.43.0


From 895b524fbb36c3940d515aae5e035b9a7969a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:32 +0000
Subject: [PATCH 050/104] fix: groupby mean with masks of several dimensions

---
 lib/dataset/groupby.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 14c90a1..25657f9 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -12,6 +12,7 @@
 #include "scipp/core/tag_util.h"
 
 #include "scipp/variable/accumulate.h"
+#include "scipp/variable/astype.h"
 #include "scipp/variable/cumulative.h"
 #include "scipp/variable/operations.h"
 #include "scipp/variable/util.h"
@@ -179,19 +180,27 @@ template <class T> T GroupBy<T>::mean(const Dim reductionDim) const {
     if (is_bins(data))
       throw except::NotImplementedError(
           "groupby.mean does not support binned data yet.");
-    auto scale = makeVariable<double>(Dims{dim()}, Shape{size()});
-    const auto scaleT = scale.template values<double>();
     const auto mask = irreducible_mask(data.masks(), reductionDim);
-    for (scipp::index group = 0; group < size(); ++group)
+    auto dims = mask.is_valid() ? mask.dims() : Dimensions{};
+    if (dims.contains(reductionDim))
+      dims.erase(reductionDim);
+    dims.addInner(dim(), size());
+    auto scale = makeVariable<double>(dims);
+    for (scipp::index group = 0; group < size(); ++group) {
+      auto scale_slice = scale.slice({dim(), group});
       for (const auto &slice : groups()[group]) {
         // N contributing to each slice
-        scaleT[group] += slice.end() - slice.begin();
+        scale_slice +=
+            static_cast<double>(slice.end() - slice.begin()) * units::one;
         // N masks for each slice, that need to be subtracted
         if (mask.is_valid()) {
-          const auto masks_sum = variable::sum(mask.slice(slice), reductionDim);
-          scaleT[group] -= masks_sum.template value<int64_t>();
+          auto masks_sum = astype(
+              variable::sum(mask.slice(slice), reductionDim), dtype<double>);
+          masks_sum.setUnit(units::one);
+          scale_slice -= masks_sum;
         }
       }
+    }
     return reciprocal(std::move(scale));
   };
 
-- 
2.43.0


From 0b7b9e3ebc38442a0139496442e63bec71e52810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:47 +0000
Subject: [PATCH 051/104] fix: groupby concat by bins, by a variable, by NaN,
 and along the dim of the key

---
 lib/dataset/bin.cpp     | 13 +++++++++----
 lib/dataset/groupby.cpp | 36 +++++++++++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 355e5b6..f811ef6 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -576,14 +576,17 @@ DataArray groupby_concat_bins(const DataArray &array, const Variable &edges,
     builder.bin(edges);
   if (groups.is_valid())
     builder.group(groups);
-  builder.erase(reductionDim);
+  // The output may have a dim named like the reduced one, which then replaces it.
+  const bool replaced = builder.dims().contains(reductionDim);
+  if (!replaced)
+    builder.erase(reductionDim);
   const auto dims = array.dims();
   for (const auto &dim : dims.labels())
-    if (array.meta().contains(dim)) {
+    if (dim != reductionDim && array.meta().contains(dim)) {
       if (array.meta()[dim].dims().ndim() != 1 &&
           array.meta()[dim].dims().contains(reductionDim))
         builder.join(dim, array.meta()[dim]);
-      else if (dim != reductionDim)
+      else
         builder.existing(dim, array.dims()[dim]);
     }
 
@@ -596,7 +599,9 @@ DataArray groupby_concat_bins(const DataArray &array, const Variable &edges,
   // than event-coord so we do not touch the latter.
   return add_metadata(masked, make_mapper(target_bins.release(), builder),
                       array.coords(), array.masks(), array.attrs(),
-                      builder.edges(), builder.groups(), {reductionDim});
+                      builder.edges(), builder.groups(),
+                      replaced ? std::vector<Dim>{}
+                               : std::vector<Dim>{reductionDim});
 }
 
 namespace {
diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 25657f9..4bdd0f0 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -26,6 +26,7 @@
 
 #include "../variable/operations_common.h"
 #include "bin_common.h"
+#include "bin_detail.h"
 #include "dataset_operations_common.h"
 
 using namespace scipp::variable;
@@ -111,15 +112,40 @@ T GroupBy<T>::reduce(Op op, const Dim reductionDim,
   return out;
 }
 
+namespace {
+/// Return the index of the group for every position along the slice dim, -1 for
+/// positions that are not part of any group.
+Variable group_index(const GroupByGrouping &grouping,
+                     const scipp::index length) {
+  auto index = makeVariable<scipp::index>(
+      Dims{grouping.sliceDim()}, Shape{length}, units::none);
+  const auto values = index.values<scipp::index>().as_span();
+  std::fill(values.begin(), values.end(), -1);
+  for (scipp::index group = 0; group < grouping.size(); ++group)
+    for (const auto &slice : grouping.groups()[group])
+      std::fill(values.begin() + slice.begin(), values.begin() + slice.end(),
+                group);
+  return index;
+}
+} // namespace
+
 /// Reduce each group by concatenating elements and return combined data.
 ///
 /// This only supports binned data.
 template <class T> T GroupBy<T>::concat(const Dim reductionDim) const {
-  const auto conc = [&](const auto &data) {
-    if (key().dims().volume() == scipp::size(groups()))
-      return groupby_concat_bins(data, {}, key(), reductionDim);
-    else
-      return groupby_concat_bins(data, key(), {}, reductionDim);
+  const auto conc = [&](const DataArray &data) {
+    // Use group indices instead of the key itself, the key may be bin edges,
+    // may not be part of the metadata, or may contain NaN.
+    DataArray array(data);
+    if (array.attrs().contains(dim()))
+      array.attrs().erase(dim());
+    array.coords().set(
+        dim(),
+        group_index(m_grouping, array.dims()[m_grouping.sliceDim()]));
+    auto out = groupby_concat_bins(
+        array, {}, bin_detail::make_range(0, size(), 1, dim()), reductionDim);
+    out.coords().set(dim(), key());
+    return out;
   };
   if constexpr (std::is_same_v<T, DataArray>) {
     return conc(m_data);
-- 
2.43.0


From e59b5e735b0d6aaf99685b8c7ff7bfa29055f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:47 +0000
Subject: [PATCH 052/104] fix: groupby puts all NaNs into one group

---
 lib/dataset/groupby.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 4bdd0f0..305212c 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -2,6 +2,7 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <limits>
 #include <numeric>
 
 #include "scipp/core/bucket.h"
@@ -271,6 +272,15 @@ template <class T> struct nan_sensitive_equal {
       return a == b;
   }
 };
+
+template <class T> struct nan_sensitive_hash {
+  std::size_t operator()(const T &x) const {
+    if constexpr (std::is_floating_point_v<T>)
+      if (std::isnan(x)) // All NaNs are equal, but may differ in their bits.
+        return std::hash<T>()(std::numeric_limits<T>::quiet_NaN());
+    return std::hash<T>()(x);
+  }
+};
 } // namespace
 
 template <class T> struct MakeGroups {
@@ -279,7 +289,7 @@ template <class T> struct MakeGroups {
     const auto &values = key.values<T>();
 
     const auto dim = key.dim();
-    std::unordered_map<T, GroupByGrouping::group, std::hash<T>,
+    std::unordered_map<T, GroupByGrouping::group, nan_sensitive_hash<T>,
                        nan_sensitive_equal<T>>
         indices;
     const auto end = values.end();
-- 
2.43.0


From 4840ee0711cebe69bd12b3934e5a63c694dd2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:46 +0000
Subject: [PATCH 053/104] fix: append to bins of a transposed or sliced
 variable

---
 lib/dataset/bins.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index fff8b24..ee233c2 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -304,12 +304,9 @@ DataArray concatenate(const DataArray &array, const Dim dim) {
 }
 
 void append(Variable &var0, const Variable &var1) {
-  if (var0.dtype() == dtype<bucket<Variable>>)
-    var0.setDataHandle(combine<Variable>(var0, var1).data_handle());
-  else if (var0.dtype() == dtype<bucket<DataArray>>)
-    var0.setDataHandle(combine<DataArray>(var0, var1).data_handle());
-  else
-    var0.setDataHandle(combine<Dataset>(var0, var1).data_handle());
+  auto out = concatenate(var0, var1);
+  core::expect::equals(out.dims(), var0.dims());
+  var0 = std::move(out);
 }
 
 void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
-- 
2.43.0


From dd0d20b4fb6e7990dbf4ba7acebe6f39ed893933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:46 +0000
Subject: [PATCH 054/104] fix: bin-wise lookup, map and scale by functions with
 transposed data

---
 lib/dataset/bins.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index ee233c2..c219f26 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -206,8 +206,8 @@ bool is_bins(const Dataset &dataset) {
 Variable lookup_previous(const DataArray &function, const Variable &x, Dim dim,
                          const std::optional<Variable> &fill_value) {
   const auto fill = make_fill(function, fill_value);
-  const auto &coord = function.meta()[dim];
-  const auto data = masked_data(function, dim, fill);
+  const auto coord = as_contiguous(function.meta()[dim], dim);
+  const auto data = as_contiguous(masked_data(function, dim, fill), dim);
   const auto weights = subspan_view(data, dim);
   if (!allsorted(coord, dim))
     throw except::DataArrayError(
@@ -368,11 +368,11 @@ Variable map(const DataArray &function, const Variable &x, Dim dim,
   const auto fill = make_fill(function, fill_value);
   if (dim == Dim::Invalid)
     dim = edge_dimension(function);
-  const auto &edges = function.meta()[dim];
+  const auto edges = as_contiguous(function.meta()[dim], dim);
   if (!is_edges(function.dims(), edges.dims(), dim))
     throw except::BinEdgeError(
         "Function used as lookup table in map operation must be a histogram");
-  const auto data = masked_data(function, dim, fill);
+  const auto data = as_contiguous(masked_data(function, dim, fill), dim);
   const auto weights = subspan_view(data, dim);
   if (all(islinspace(edges, dim)).value<bool>()) {
     return variable::transform(x, subspan_view(edges, dim), weights, fill,
@@ -395,8 +395,8 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   expect_can_union_or_in_place(array.masks(), masks);
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
-  const auto &edges = histogram.meta()[dim];
-  const auto masked = masked_data(histogram, dim);
+  const auto edges = as_contiguous(histogram.meta()[dim], dim);
+  const auto masked = as_contiguous(masked_data(histogram, dim), dim);
   const auto weights = subspan_view(masked, dim);
   if (all(islinspace(edges, dim)).value<bool>()) {
     transform_in_place(data, coord, subspan_view(edges, dim), weights,
-- 
2.43.0


From 2b2d850087494fdefc393fda06bcb11faf4659ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 055/104] fix: scale of events keeps only masks that do not
 depend on the dim

---
 lib/dataset/bins.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index c219f26..e366cd5 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -385,13 +385,24 @@ Variable map(const DataArray &function, const Variable &x, Dim dim,
   }
 }
 
+namespace {
+Masks masks_not_along(const DataArray &array, const Dim dim) {
+  const auto slice = array.slice({dim, 0});
+  Masks out(slice.dims(), {});
+  for (const auto &[name, mask] : array.masks())
+    if (!mask.dims().contains(dim))
+      out.set(name, mask);
+  return out;
+}
+} // namespace
+
 void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   if (dim == Dim::Invalid)
     dim = edge_dimension(histogram);
   // Coords along dim are ignored since "binning" is dynamic for buckets.
   expect::coords_are_superset(array, histogram.slice({dim, 0}), "bins.scale");
   // scale applies masks along dim but others are kept
-  const auto masks = histogram.slice({dim, 0}).masks();
+  const auto masks = masks_not_along(histogram, dim);
   expect_can_union_or_in_place(array.masks(), masks);
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
-- 
2.43.0


From 6d46e05987ad554943f49e900e9a8796a47d6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 056/104] fix: mean of binned data with masks counts events

---
 lib/dataset/variable_reduction.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/dataset/variable_reduction.cpp b/lib/dataset/variable_reduction.cpp
index b50efe5..5d78458 100644
--- a/lib/dataset/variable_reduction.cpp
+++ b/lib/dataset/variable_reduction.cpp
@@ -6,11 +6,13 @@
 #include "../variable/operations_common.h"
 #include "scipp/dataset/sized_dict.h"
 #include "scipp/variable/arithmetic.h"
+#include "scipp/variable/bins.h"
 #include "scipp/variable/creation.h"
 #include "scipp/variable/reduction.h"
 #include "scipp/variable/shape.h"
 #include "scipp/variable/special_values.h"
 #include "scipp/variable/util.h"
+#include "scipp/variable/variable_factory.h"
 
 #include "dataset_operations_common.h"
 
@@ -70,11 +72,29 @@ Variable any(const Variable &var, const Dim dim, const Masks &masks) {
                      [](auto &&...args) { return any(args...); });
 }
 
+namespace {
+Variable masked_to_zero(const Variable &mask, const Variable &var) {
+  return where(mask, dense_special_like(var, Dimensions{}, FillValue::Default),
+               var);
+}
+
+/// Return the number of events that are not masked, for every bin.
+Variable event_count(const Variable &var) {
+  if (const auto mask = variable::variableFactory().irreducible_event_mask(var);
+      mask.is_valid())
+    return variable::bins_sum(variable::make_bins_no_validate(
+        var.bin_indices(), variable::variableFactory().elem_dim(var), ~mask));
+  return bin_sizes(var);
+}
+} // namespace
+
 Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
   if (const auto mask_union = ordered_irreducible_mask(var, dim, masks);
       mask_union.is_valid()) {
-    const auto count = sum(~mask_union, dim);
-    return mean_impl(where(mask_union, zero_like(var), var), dim, count);
+    const auto count =
+        is_bins(var) ? sum(masked_to_zero(mask_union, event_count(var)), dim)
+                     : sum(~mask_union, dim);
+    return mean_impl(masked_to_zero(mask_union, var), dim, count);
   }
   return mean(var, dim);
 }
@@ -84,7 +104,7 @@ Variable nanmean(const Variable &var, const Dim dim, const Masks &masks) {
       mask_union.is_valid()) {
     const auto count = sum(
         where(mask_union, makeVariable<bool>(Values{false}), ~isnan(var)), dim);
-    return nanmean_impl(where(mask_union, zero_like(var), var), dim, count);
+    return nanmean_impl(masked_to_zero(mask_union, var), dim, count);
   }
   return nanmean(var, dim);
 }
-- 
2.43.0


From 41bd860e08d94279fb717cd36b858dd0afde50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 057/104] fix: bins with different units are not concatenated

---
 lib/variable/bins.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/variable/bins.cpp b/lib/variable/bins.cpp
index a79bafa..b7bd972 100644
--- a/lib/variable/bins.cpp
+++ b/lib/variable/bins.cpp
@@ -41,6 +41,7 @@ Variable bin_sizes(const Variable &var) {
 
 void copy_slices(const Variable &src, Variable dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
+  core::expect::equals(src.unit(), dst.unit());
   auto src_ = make_bins_no_validate(srcIndices, dim, src);
   auto dst_ = make_bins_no_validate(dstIndices, dim, dst);
   copy(src_, dst_);
-- 
2.43.0


From 0e7c72b8a0cda01cafc630f775ace1682b4d2bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:20 +0000
Subject: [PATCH 058/104] fix: groupby reductions of binned data with masks

---
 lib/dataset/groupby.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 305212c..0ec6b64 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -77,9 +77,11 @@ void reduce_(Op op, const Dim reductionDim, const Variable &out_data,
              const FillValue fill) {
   // ZeroNotBool is for the output, the replacement must have the dtype of data.
   const auto mask_replacement =
-      special_like(Variable(data.data(), Dimensions{}),
-                   fill == FillValue::ZeroNotBool ? FillValue::Default : fill);
-  auto mask = irreducible_mask(data.masks(), reductionDim);
+      dense_special_like(data.data(), Dimensions{},
+                         fill == FillValue::ZeroNotBool ? FillValue::Default
+                                                        : fill);
+  const auto mask =
+      ordered_irreducible_mask(data.data(), reductionDim, data.masks());
   const auto process = [&](const auto &range) {
     // Apply to each group, storing result in output slice
     for (scipp::index group = range.begin(); group != range.end(); ++group) {
-- 
2.43.0


From 0f9e06e3f822549a0825f0848a8fd17995fdf9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:20 +0000
Subject: [PATCH 059/104] fix: conversion of a dataset to densities modified
 its input

---
 lib/dataset/counts.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/counts.cpp b/lib/dataset/counts.cpp
index b8eccf4..f5f14a4 100644
--- a/lib/dataset/counts.cpp
+++ b/lib/dataset/counts.cpp
@@ -51,9 +51,10 @@ Dataset toDensity(const Dataset &d, const Dim dim) {
 
 Dataset toDensity(const Dataset &d, const std::vector<Dim> &dims) {
   const auto binWidths = getBinWidths(d.coords(), dims);
-  for (auto &&data : d)
+  auto out = copy(d);
+  for (auto &&data : out)
     toDensity(data, binWidths);
-  return d;
+  return out;
 }
 
 DataArray toDensity(const DataArray &a, const Dim dim) {
@@ -82,9 +83,10 @@ Dataset fromDensity(const Dataset &d, const Dim dim) {
 
 Dataset fromDensity(const Dataset &d, const std::vector<Dim> &dims) {
   const auto binWidths = getBinWidths(d.coords(), dims);
-  for (auto &&data : d)
+  auto out = copy(d);
+  for (auto &&data : out)
     fromDensity(data, binWidths);
-  return d;
+  return out;
 }
 
 DataArray fromDensity(const DataArray &a, const Dim dim) {
-- 
2.43.0


From 912c203683c38abe247cef23811f15dc20199af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:24 +0000
Subject: [PATCH 060/104] fix: transform_coords counted colors of dims
 repeatedly after a diamond

The depth-first traversal visited nodes once per path and propagated their
(partial) color each time. After split-join graphs this lead to colors that
did not add up to 1 and dimensions were not renamed to the last coordinate.
---
 src/scipp/coords/transform_coords.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/scipp/coords/transform_coords.py b/src/scipp/coords/transform_coords.py
index adc20db..0ea1115 100644
--- a/src/scipp/coords/transform_coords.py
+++ b/src/scipp/coords/transform_coords.py
@@ -310,17 +310,16 @@ def _color_dims(graph: Graph, dim_coords: set[str]) -> dict[str, dict[str, Fract
     }
     for dim in dim_coords:
         colors[dim][dim] = Fraction(1, 1)
-        depth_first_stack = [dim]
-        while depth_first_stack:
-            coord = depth_first_stack.pop()
-            children = tuple(graph.children_of(coord))
-            for child in children:
-                # test for produced dim coords
-                if child not in dim_coords:
+    # Visit every node once, after all its parents, as only then its colors are final.
+    for coord in graph.nodes_topologically():
+        children = tuple(graph.children_of(coord))
+        for child in children:
+            # test for produced dim coords
+            if child not in dim_coords:
+                for dim in dim_coords:
                     colors[child][dim] += colors[coord][dim] * Fraction(
                         1, len(children)
                     )
-            depth_first_stack.extend(children)
 
     return colors
 
-- 
2.43.0


From 377367b03ecfe5e9eb72ded6100abf6167544d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:24 +0000
Subject: [PATCH 061/104] fix: transform_coords of slices of binned data failed
 with aliases

Storing a computed event coord replaces the sliced data by a compact copy.
An alias of an input event coord still has the bin indices of the slice and
did not fit thereafter.
---
 src/scipp/coords/transform_coords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scipp/coords/transform_coords.py b/src/scipp/coords/transform_coords.py
index 0ea1115..53814ef 100644
--- a/src/scipp/coords/transform_coords.py
+++ b/src/scipp/coords/transform_coords.py
@@ -288,8 +288,9 @@ def _store_coord(da: DataArray, name: str, coord: Coord) -> None:
                 store(da.bins, coord.event)
             except (DimensionError, VariableError):
                 # Thrown on mismatching bin indices, e.g. slice
+                # or if the data was copied because of another coord.
                 da.data = da.data.copy()
-                store(da.bins, coord.event)
+                store(da.bins, coord.event.copy())
 
 
 def _store_results(da: DataArray, coords: CoordTable, targets: set[str]) -> DataArray:
-- 
2.43.0


From 97488f76d7d80ae3cac7a72c0754ab065addfc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:45 +0000
Subject: [PATCH 062/104] fix: reduction of DataGroup reduced all dims of
 nested groups

A nested group counted as binned because it has a property 'bins'. If it did
not have the reduced dimension its items were reduced over all dimensions.
---
 src/scipp/core/data_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scipp/core/data_group.py b/src/scipp/core/data_group.py
index 22b00a6..a69bc71 100644
--- a/src/scipp/core/data_group.py
+++ b/src/scipp/core/data_group.py
@@ -294,6 +294,9 @@ class DataGroup(MutableMapping[str, _V]):
         reduce_all = operator.methodcaller(method, **kwargs)
 
         def _reduce_child(v: _V) -> Any:
+            if isinstance(v, DataGroup):
+                # May or may not have items with the given dim or with binned data.
+                return v._reduce(method, dim, **kwargs)
             if isinstance(v, GroupByDataArray | GroupByDataset):
                 child_dims: tuple[None | str | Sequence[str], ...] = (dim,)
             else:
-- 
2.43.0


From cbfd13022117c058edea23a271371d1323b7e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:45 +0000
Subject: [PATCH 063/104] fix: squeeze of DataGroup squeezed other dims of
 binned items

Items with binned data but without the given dimension were squeezed
along all their dimensions of length 1.
---
 src/scipp/core/data_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scipp/core/data_group.py b/src/scipp/core/data_group.py
index a69bc71..2ac10ed 100644
--- a/src/scipp/core/data_group.py
+++ b/src/scipp/core/data_group.py
@@ -304,7 +304,8 @@ class DataGroup(MutableMapping[str, _V]):
             # Reduction operations on binned data implicitly reduce over bin content.
             # Therefore, a purely dimension-based logic is not sufficient to determine
             # if the item has to be reduced or not.
-            binned = _is_binned(v)
+            # Squeezing does not touch the content of bins.
+            binned = method != 'squeeze' and _is_binned(v)
             if child_dims == () and not binned:
                 return v
             if dim is None:
-- 
2.43.0


From 0f4ca952d53102741b3d52896deb46097ff5e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 064/104] fix: automatic edges of datasets missed the range of
 some items

---
 src/scipp/core/binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scipp/core/binning.py b/src/scipp/core/binning.py
index 4f8c191..ea781ea 100644
--- a/src/scipp/core/binning.py
+++ b/src/scipp/core/binning.py
@@ -298,7 +298,7 @@ def _get_coord(x: Variable | DataArray | Dataset, name: str) -> Variable:
         for da in x.values():
             c = _get_coord(da, name)
             cmin = c.min() if cmin is None else min(cmin, c.min())  # type: ignore[call-overload]
-            cmax = c.max() if cmax is None else max(cmin, c.max())  # type: ignore[call-overload]
+            cmax = c.max() if cmax is None else max(cmax, c.max())  # type: ignore[call-overload]
         coord = concat([cmin, cmax], dim='dummy')  # type: ignore[type-var]
     else:
         event_coord = x.bins.deprecated_meta.get(name) if x.bins is not None else None
-- 
2.43.0


From eba4c699ba5e02408871cd0ae12dd7ca203517ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 065/104] fix: automatic edges excluded the maximum if adding 1
 did not change it

---
 src/scipp/core/binning.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/scipp/core/binning.py b/src/scipp/core/binning.py
index ea781ea..1bc0438 100644
--- a/src/scipp/core/binning.py
+++ b/src/scipp/core/binning.py
@@ -314,9 +314,7 @@ def _upper_bound(x: Variable) -> Variable:
     if bound.dtype in ('int32', 'int64', 'datetime64'):
         bound.value += 1
     else:
-        bound.value = np.nextafter(
-            bound.value, (bound + scalar(1, unit=bound.unit, dtype=bound.dtype)).value
-        )
+        bound.value = np.nextafter(bound.value, np.inf)
     return bound
 
 
-- 
2.43.0


From a52216e074174f9da2ae64519c48731efd014b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 066/104] fix: grouping of masked binned data by bin coords
 failed or misplaced events

---
 src/scipp/core/bin_remapping.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scipp/core/bin_remapping.py b/src/scipp/core/bin_remapping.py
index 6a6e511..49a6657 100644
--- a/src/scipp/core/bin_remapping.py
+++ b/src/scipp/core/bin_remapping.py
@@ -147,6 +147,13 @@ def combine_bins(
     else:
         names = [coord.dim for coord in itertools.chain(edges, groups)]
         coords = {name: da.coords[name] for name in names}
+        mask = irreducible_mask(da, dim)
+        if mask is not None and mask.ndim == 1:
+            # `hide_masked` dropped the masked bins.
+            coords = {
+                name: coord[~mask] if mask.dim in coord.dims else coord
+                for name, coord in coords.items()
+            }
         data = _combine_bins(masked, coords=coords, edges=edges, groups=groups, dim=dim)
     out = rewrap_reduced_data(da, data, dim=dim)
     for coord in itertools.chain(edges, groups):
-- 
2.43.0


From 216daed2729dab826b30d7cc79fd5aad0e0738ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 067/104] fix: hist of binned data by a bin coord summed over
 dims not given by dim

---
 src/scipp/core/binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scipp/core/binning.py b/src/scipp/core/binning.py
index 1bc0438..73bcf06 100644
--- a/src/scipp/core/binning.py
+++ b/src/scipp/core/binning.py
@@ -75,6 +75,10 @@ def make_histogrammed(
                     "Cannot histogram data with existing bin edges "
                     "unless event data coordinate for histogramming is available."
                 )
+            coord = x.coords.get(dim)
+            if coord is not None and not set(coord.dims) <= {*erase, dim}:
+                # Histogramming would also sum over the dims of the coord.
+                return make_binned(x, edges=[edges], erase=list(erase)).bins.sum()  # type: ignore[union-attr]
             return make_histogrammed(x.bins.sum(), edges=edges, erase=erase)
     _check_erase_dimension_clash(erase, edges)
     # The C++ implementation uses an older heuristic histogramming a single dimension.
-- 
2.43.0


From f54fa693b3a52ab7482630e792ee9e8efe2dab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 068/104] fix: automatic edges of datetime coords in ns were
 off by up to 128 ns

---
 src/scipp/core/binning.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scipp/core/binning.py b/src/scipp/core/binning.py
index 73bcf06..ff3a9be 100644
--- a/src/scipp/core/binning.py
+++ b/src/scipp/core/binning.py
@@ -13,7 +13,7 @@ from .cpp_classes import BinEdgeError, CoordError, DataArray, Dataset, DType, Va
 from .data_group import DataGroup, data_group_overload
 from .math import round as round_
 from .shape import concat
-from .variable import arange, array, epoch, linspace, scalar
+from .variable import arange, array, linspace, scalar
 
 _DaDs = TypeVar('_DaDs', bound=DataArray | Dataset)
 
@@ -344,9 +344,9 @@ def _parse_coords_arg(
         )
     if not isinstance(arg, Variable):
         if start.dtype == DType.datetime64:
-            base = epoch(unit=start.unit)
-            return base + round_(
-                linspace(name, start - base, stop - base, num=arg.__index__() + 1)
+            # Relative to `start`, since float64 cannot represent time since epoch in ns.
+            return start + round_(
+                linspace(name, start - start, stop - start, num=arg.__index__() + 1)
             ).to(dtype='int64')
         return linspace(name, start, stop, num=arg.__index__() + 1).to(
             dtype=start.dtype, copy=False
-- 
2.43.0


From bd8d691cdba6158ac9f9058c205b2a37ee2fede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 069/104] fix: group by a string coord failed for data without
 elements

---
 src/scipp/core/binning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scipp/core/binning.py b/src/scipp/core/binning.py
index ff3a9be..5dff2df 100644
--- a/src/scipp/core/binning.py
+++ b/src/scipp/core/binning.py
@@ -984,7 +984,9 @@ def _make_groups(x: DataArray, arg: str | Variable) -> Variable:
         coord = coord.copy().bins.constituents['data']  # type: ignore[assignment, union-attr]
 
     if 0 in coord.shape:
-        unique = coord.values[0:0]
+        # Slices of the values are supported only for elements of NumPy type.
+        is_string = coord.dtype == DType.string
+        unique = np.array([], dtype=str) if is_string else coord.values.ravel()[0:0]
     # We are currently using np.unique to find all unique groups. This can be very slow
     # for large inputs. In many cases groups are in a bounded range of integers, and we
     # can sometimes bypass a full call to np.unique by checking a sub-range first
-- 
2.43.0


From 69d0553197df5a437a7b50dac756421c2b12d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:38 +0000
Subject: [PATCH 070/104] fix: automatic edges of given width excluded the
 maximum

---
 src/scipp/core/binning.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scipp/core/binning.py b/src/scipp/core/binning.py
index 5dff2df..981fa89 100644
--- a/src/scipp/core/binning.py
+++ b/src/scipp/core/binning.py
@@ -354,7 +354,11 @@ def _parse_coords_arg(
     step = arg.to(dtype=start.dtype, unit=start.unit)
     if step.value == 0:
         raise ValueError("Step size cannot be 0.")
-    return arange(name, start, stop + step, step=step)
+    edges = arange(name, start, stop + step, step=step)
+    if len(edges) > 0 and edges[-1] < stop:
+        # `stop + step` was rounded down.
+        edges = concat([edges, edges[-1] + step], dim=name)
+    return edges
 
 
 def _make_edges(
-- 
2.43.0


From e72759b22f425a836d3b0aa214e062b1b0e6263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:42 +0000
Subject: [PATCH 071/104] fix: bin along a dim with zero-width bins failed if
 the new edges repeat

---
 lib/dataset/bin.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index f811ef6..d7f9c43 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -10,6 +10,7 @@
 #include "scipp/variable/bin_detail.h"
 #include "scipp/variable/bin_util.h"
 #include "scipp/variable/bins.h"
+#include "scipp/variable/comparison.h"
 #include "scipp/variable/cumulative.h"
 #include "scipp/variable/reduction.h"
 #include "scipp/variable/shape.h"
@@ -375,6 +376,9 @@ public:
           // in various places later on.
           begin = squeeze(begin, std::nullopt);
           end = squeeze(end, std::nullopt);
+          // The target range of an input bin of zero width may be negative.
+          const auto after_begin = begin + 1 * units::none;
+          end = where(less(end, after_begin), after_begin, end);
           const auto indices_ = zip(begin, end);
           const auto inner_volume = dims().volume() / dims()[dim] * units::none;
           // Number of non-zero entries (per "row" above)
-- 
2.43.0


From f43e2a333314539f1082434f6bebe4f04d1d1b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:57 +0000
Subject: [PATCH 072/104] fix: lookup failed for a function of several dims
 unless dim is the innermost

---
 src/scipp/core/bins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scipp/core/bins.py b/src/scipp/core/bins.py
index c35b856..97fa42c 100644
--- a/src/scipp/core/bins.py
+++ b/src/scipp/core/bins.py
@@ -115,7 +115,9 @@ def lookup(
         # ensure contiguous memory access.
         dims = (*[d for d in func.dims if d != dim], dim)
         func.data = func.data.transpose(dims).copy()
-        func.coords[dim] = func.coords[dim].transpose(dims).copy()
+        coord = func.coords[dim]
+        # Like masks, the coord potentially has fewer dims than the data.
+        func.coords[dim] = coord.transpose([d for d in dims if d in coord.dims]).copy()
         for key, mask in func.masks.items():
             func.masks[key] = mask.transpose(
                 # Masks potentially have fewer dims than the data.
-- 
2.43.0


From 93401d507ccfd6d51baebd13100d5977a8ddb099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:22 +0000
Subject: [PATCH 073/104] fix: lookup of the nearest point of an integer or
 datetime coord rounded midpoints down

The threshold between adjacent points was the lower one itself if they differ
by one, so looking up a point of the function gave the value of the next.
---
 src/scipp/core/bins.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scipp/core/bins.py b/src/scipp/core/bins.py
index 97fa42c..338a347 100644
--- a/src/scipp/core/bins.py
+++ b/src/scipp/core/bins.py
@@ -134,11 +134,21 @@ def lookup(
     if mode == 'nearest' and func.sizes[dim] != 0:
         coord = func.coords[dim]
         lowest = coord[dim, 0:0].max()  # trick to get lowest representable value
-        parts = [lowest] if coord.sizes[dim] < 2 else [lowest, midpoints(coord, dim)]
+        parts = [lowest] if coord.sizes[dim] < 2 else [lowest, _upper_half(coord, dim)]
         func.coords[dim] = concat(parts, dim)
     return Lookup(_cpp.lookup_previous, func, dim, fill_value)
 
 
+def _upper_half(coord: Variable, dim: str) -> Variable:
+    """Return the lowest values that are closer to the upper of adjacent elements."""
+    if coord.dtype in (DType.int32, DType.int64, DType.datetime64):
+        # midpoints rounds down, i.e., may return the lower element.
+        width = coord[dim, 1:] - coord[dim, :-1]
+        two = scalar(2, unit=None if width.unit is None else 'one', dtype=width.dtype)
+        return coord[dim, 1:] - width // two
+    return midpoints(coord, dim)
+
+
 class Constituents(TypedDict):
     """A dict with bin constituents."""
 
-- 
2.43.0


From c0a649930e424fca97388a3a055f83a563846572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:01 +0000
Subject: [PATCH 074/104] fix: assigning values from an overlapping numpy array
 ignored part of the overlap

The end of the target's memory was taken from the end iterator, which is the
end of the outer dim and before the last element if the target is transposed.
---
 lib/python/numpy.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/python/numpy.h b/lib/python/numpy.h
index 30e4a18..76abab8 100644
--- a/lib/python/numpy.h
+++ b/lib/python/numpy.h
@@ -221,14 +221,28 @@ template <class T> auto memory_begin_end(const py::buffer_info &info) {
   return std::pair{begin + begin_offset, end + end_offset};
 }
 
+template <class T> auto memory_begin_end(const ElementArrayView<T> &view) {
+  // The end of the memory is in general not given by view.end(), the latter is
+  // the end of the *outer* dimension, which may have the smaller stride.
+  const auto [begin_offset, end_offset] =
+      memory_bounds(view.dims().shape().begin(), view.dims().shape().end(),
+                    view.strides().begin());
+  const auto *begin = view.buffer() + view.offset();
+  return std::pair{begin + begin_offset, begin + end_offset};
+}
+
+template <class T>
+auto memory_begin_end(const core::element_array<T> &array) {
+  return std::pair{array.data(), array.data() + array.size()};
+}
+
 template <class T, class View>
 bool memory_overlaps(const py::array_t<T> &data, const View &view) {
   const auto &buffer_info = data.request();
   const auto [data_begin, data_end] = memory_begin_end<std::byte>(buffer_info);
-  const auto begin = view.begin();
-  const auto end = view.end();
-  const auto view_begin = reinterpret_cast<const std::byte *>(&*begin);
-  const auto view_end = reinterpret_cast<const std::byte *>(&*end);
+  const auto [begin, end] = memory_begin_end(view);
+  const auto view_begin = reinterpret_cast<const std::byte *>(begin);
+  const auto view_end = reinterpret_cast<const std::byte *>(end);
   // Note the use of std::less, pointer comparison with operator< may be
   // undefined behavior with pointers from different arrays.
   return std::less<>()(data_begin, view_end) &&
-- 
2.43.0


From 54c8087f164969effbb6934ad130576b8695af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:19 +0000
Subject: [PATCH 075/104] fix: iterating over the elements of a variable of
 Python objects failed

---
 lib/python/element_array_view.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/python/element_array_view.cpp b/lib/python/element_array_view.cpp
index 2a3ac0e..8c3d0ee 100644
--- a/lib/python/element_array_view.cpp
+++ b/lib/python/element_array_view.cpp
@@ -48,7 +48,15 @@ void declare_ElementArrayView(py::module &m, const std::string &suffix) {
           py::return_value_policy::reference)
       .def("__len__", &ElementArrayView<T>::size)
       .def("__iter__", [](const ElementArrayView<T> &self) {
-        return py::make_iterator(self.begin(), self.end());
+        if constexpr (std::is_same_v<std::remove_const_t<T>,
+                                     scipp::python::PyObject>) {
+          py::list objects;
+          for (const auto &item : self)
+            objects.append(to_python_object(item));
+          return py::iter(objects);
+        } else {
+          return py::make_iterator(self.begin(), self.end());
+        }
       });
   if constexpr (std::is_same_v<std::remove_const_t<std::remove_reference_t<T>>,
                                scipp::python::PyObject>) {
-- 
2.43.0


From 7d251f2184bc3b80163d5ce6e93c176dc787fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:19 +0000
Subject: [PATCH 076/104] fix: from_dict lost the name of a data array

---
 src/scipp/compat/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scipp/compat/dict.py b/src/scipp/compat/dict.py
index d500bba..c78bba8 100644
--- a/src/scipp/compat/dict.py
+++ b/src/scipp/compat/dict.py
@@ -198,4 +198,4 @@ def _dict_to_data_array(d):
             for name, item in d[key].items():
                 out[key][name] = _dict_to_variable(item)
     out["data"] = _dict_to_variable(d["data"])
-    return DataArray(**out)
+    return DataArray(**out, name=d.get("name", ""))
-- 
2.43.0


From 96d49ff314356e8487038d541584188cbfda2600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:09 +0000
Subject: [PATCH 077/104] fix: from_dict failed for vectors and matrices that
 are not aligned

---
 src/scipp/compat/dict.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/scipp/compat/dict.py b/src/scipp/compat/dict.py
index c78bba8..9e210cc 100644
--- a/src/scipp/compat/dict.py
+++ b/src/scipp/compat/dict.py
@@ -13,10 +13,7 @@ from ..core import (
     Dataset,
     DType,
     Variable,
-    vector,
-    vectors,
 )
-from ..spatial import linear_transform, linear_transforms
 from ..typing import VariableLike
 
 
@@ -166,22 +163,14 @@ def _dict_to_variable(d):
             out[key] = getattr(DType, d[key])
         else:
             out[key] = d[key]
-    # Hack for types that cannot be directly constructed using Variable()
-    if out['dims']:
-        init = {'vector3': vectors, 'linear_transform3': linear_transforms}
-    else:
-        init = {'vector3': vector, 'linear_transform3': linear_transform}
-    make_var = init.get(str(out.get('dtype', None)), Variable)
-    if make_var != Variable:
-        if not out['dims']:
-            out['value'] = out['values']
-            del out['values']
-            del out['dims']
-        for key in ['dtype', 'variance', 'variances']:
-            if key in out:
-                del out[key]
-    var = make_var(**out)
-    return var
+    structured = str(out.get('dtype', None))
+    if structured in ('vector3', 'linear_transform3'):
+        for key in ['variance', 'variances']:
+            out.pop(key, None)
+        if structured == 'linear_transform3':
+            # Variable() expects the elements of matrices in column-major order.
+            out['values'] = np.swapaxes(out['values'], -1, -2)
+    return Variable(**out)
 
 
 def _dict_to_data_array(d):
-- 
2.43.0


From 1a38057f1a2919c6b6a5118135f0bf6885875e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:50 +0000
Subject: [PATCH 078/104] fix: from_dict failed for arrays of strings with
 several dims or without elements

---
 src/scipp/compat/dict.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scipp/compat/dict.py b/src/scipp/compat/dict.py
index 9e210cc..2bdc2cd 100644
--- a/src/scipp/compat/dict.py
+++ b/src/scipp/compat/dict.py
@@ -170,6 +170,12 @@ def _dict_to_variable(d):
         if structured == 'linear_transform3':
             # Variable() expects the elements of matrices in column-major order.
             out['values'] = np.swapaxes(out['values'], -1, -2)
+    elif structured == 'string' and out['dims']:
+        # Variable() supports only 1-D arrays of strings.
+        values = np.asarray(out['values'], dtype=str)
+        sizes = dict(zip(out['dims'], d.get('shape', values.shape), strict=True))
+        out.update(dims=['strings'], values=values.ravel())
+        return Variable(**out).fold('strings', sizes=sizes)
     return Variable(**out)
 
 
-- 
2.43.0


From c22f2a3eaab2e180bba622285ba29602e39665e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:04 +0000
Subject: [PATCH 079/104] fix: bool scalars made from fractions below 1 were
 False

---
 lib/python/dtype.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python/dtype.h b/lib/python/dtype.h
index 3ef22eb..5dc02e4 100644
--- a/lib/python/dtype.h
+++ b/lib/python/dtype.h
@@ -32,7 +32,8 @@ template <class T, class = void> struct converting_cast {
 };
 
 template <class T>
-struct converting_cast<T, std::enable_if_t<std::is_integral_v<T>>> {
+struct converting_cast<T, std::enable_if_t<std::is_integral_v<T> &&
+                                           !std::is_same_v<T, bool>>> {
   static decltype(auto) cast(const pybind11::object &obj) {
     if (dtype_of(obj) == scipp::dtype<double>) {
       // This conversion is not implemented in pybind11 v2.6.2
-- 
2.43.0


From 76b6d6e66acc0891248e73b324b920dc8d36a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 080/104] fix: variances (var, nanvar) of a data array had the
 unit of its values

---
 src/scipp/core/reduction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scipp/core/reduction.py b/src/scipp/core/reduction.py
index e00d44a..ee3eec7 100644
--- a/src/scipp/core/reduction.py
+++ b/src/scipp/core/reduction.py
@@ -912,11 +912,12 @@ def _reduce_with_numpy(
     _expect_no_variance(x, sc_func.__name__)
     _expect_not_binned(x, sc_func.__name__)
     reduced_dims, out_dims, axis = _split_dims(x, dim)
+    out_unit = unit_func(x.unit) if x.unit is not None else None
     if isinstance(x, Variable):
         return array(
             dims=out_dims,
             values=np_func(x.values, axis=axis, **kwargs),
-            unit=unit_func(x.unit) if x.unit is not None else None,
+            unit=out_unit,
         )
     if isinstance(x, DataArray):
         if (mask := concepts.irreducible_mask(x, dim)) is not None:
@@ -927,7 +928,7 @@ def _reduce_with_numpy(
         else:
             res = np_func(x.values, axis=axis, **kwargs)
         return concepts.rewrap_reduced_data(
-            x, array(dims=out_dims, values=res, unit=x.unit), dim
+            x, array(dims=out_dims, values=res, unit=out_unit), dim
         )
     raise TypeError(f'invalid argument of type {type(x)} to {sc_func}')
 
-- 
2.43.0


From 093ce4ee458256e18d78aef2e1cf4dbb65c72a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:08 +0000
Subject: [PATCH 081/104] fix: arrays of strings with several dims could not be
 saved to HDF5

---
 src/scipp/io/hdf5.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/scipp/io/hdf5.py b/src/scipp/io/hdf5.py
index 5883a89..b48a897 100644
--- a/src/scipp/io/hdf5.py
+++ b/src/scipp/io/hdf5.py
@@ -179,8 +179,7 @@ class _StringDataIO:
         if len(data.shape) == 0:
             dset[()] = data.value
         else:
-            for i in range(len(data.values)):
-                dset[i] = data.values[i]
+            dset[...] = np.array(list(data.values), dtype=object).reshape(data.shape)
         return dset
 
     @staticmethod
@@ -189,8 +188,8 @@ class _StringDataIO:
         if len(data.shape) == 0:
             data.value = values[()]
         else:
-            for i in range(len(data.values)):
-                data.values[i] = values[i]
+            for i, value in enumerate(values[()].ravel()):
+                data.values[i] = value
 
 
 def _write_scipp_header(group: h5.Group, what: str) -> None:
-- 
2.43.0


From 2c184c6e0242fd82be89c292f2573b258054ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:08 +0000
Subject: [PATCH 082/104] fix: broadcast binned data saved to HDF5 could not be
 loaded

---
 src/scipp/io/hdf5.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/scipp/io/hdf5.py b/src/scipp/io/hdf5.py
index b48a897..6537fe5 100644
--- a/src/scipp/io/hdf5.py
+++ b/src/scipp/io/hdf5.py
@@ -115,6 +115,13 @@ class _NumpyDataIO:
             group['variances'].read_direct(data.variances)
 
 
+def _bins_overlap(bins: Mapping[str, Any]) -> bool:
+    begin = np.ravel(bins['begin'].values)
+    end = np.ravel(bins['end'].values)
+    order = np.lexsort((end, begin))
+    return bool(np.any(end[order][:-1] > begin[order][1:]))
+
+
 class _BinDataIO:
     @staticmethod
     def write(group: h5.Group, data: Variable) -> h5.Group:
@@ -127,7 +134,9 @@ class _BinDataIO:
         # copy causes some overhead, but so would the (much more complicated)
         # solution to extract contents bin-by-bin. This approach will likely
         # need to be revisited in the future.
-        if buffer_len > 1.5 * data.bins.size().sum().value:
+        # Bins may refer to the same events, e.g., after a broadcast. A copy makes them
+        # independent, otherwise they could not be read.
+        if buffer_len > 1.5 * data.bins.size().sum().value or _bins_overlap(bins):
             data = data.copy()
             bins = data.bins.constituents  # type: ignore[union-attr]
         values = group.create_group('values')
-- 
2.43.0


From 86204d72228e001d09e1af88e2222fca5fefac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:09 +0000
Subject: [PATCH 083/104] fix: data arrays in a data group were loaded from
 HDF5 with the key as name

---
 src/scipp/io/hdf5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scipp/io/hdf5.py b/src/scipp/io/hdf5.py
index 6537fe5..bcec306 100644
--- a/src/scipp/io/hdf5.py
+++ b/src/scipp/io/hdf5.py
@@ -371,6 +371,8 @@ class _DataArrayIO:
             override = {}
         _write_scipp_header(group, 'DataArray')
         group.attrs['name'] = data.name
+        # The attribute above is replaced by the key if the group is part of a mapping.
+        group.attrs['data-array-name'] = data.name
         if _VariableIO.write(group.create_group('data'), var=data.data) is None:
             return None
         views = [data.coords, data.masks, data.attrs]
@@ -388,7 +390,7 @@ class _DataArrayIO:
         if override is None:
             override = {}
         contents = {}
-        contents['name'] = group.attrs['name']
+        contents['name'] = group.attrs.get('data-array-name', group.attrs['name'])
         contents['data'] = _VariableIO.read(group['data'])
         for category in ['coords', 'masks', 'attrs']:
             contents[category] = _read_mapping(group[category], override.get(category))
-- 
2.43.0


From 534ec435f77041d858ef74ff32f1bf817115726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:21 +0000
Subject: [PATCH 084/104] fix: image filters ignored the order of the dims of a
 footprint

---
 src/scipp/scipy/ndimage/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scipp/scipy/ndimage/__init__.py b/src/scipp/scipy/ndimage/__init__.py
index a1adeae..1f18dec 100644
--- a/src/scipp/scipy/ndimage/__init__.py
+++ b/src/scipp/scipy/ndimage/__init__.py
@@ -201,6 +201,7 @@ def _make_footprint(
             raise DimensionError(
                 f"Dimensions {footprint.dims} must match data dimensions {x.dim}"
             )
+        footprint = footprint.transpose(x.dims)
     return footprint
 
 
-- 
2.43.0


From a84c79193e8c11021282a1d028d2003096fa6639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:21 +0000
Subject: [PATCH 085/104] fix: curve_fit failed if a coord depends on both
 fitted and other dims

---
 src/scipp/curve_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scipp/curve_fit.py b/src/scipp/curve_fit.py
index ad67f4b..e5f6a7b 100644
--- a/src/scipp/curve_fit.py
+++ b/src/scipp/curve_fit.py
@@ -94,7 +94,8 @@ def _datagroup_outputs(da, p0, map_over, pdata, covdata):
         }
     )
     for c in da.coords:
-        if set(map_over).intersection(da.coords[c].dims):
+        # Drop coords that don't fit the output data
+        if da.coords[c].dims and set(da.coords[c].dims).issubset(map_over):
             for p in dg:
                 dg[p].coords[c] = da.coords[c]
                 for q in dgcov[p]:
-- 
2.43.0


From 6bac9a4faf5cd61f25345128aeb617b0e6859f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:21 +0000
Subject: [PATCH 086/104] fix: interp1d truncated interpolated values of
 integers

---
 src/scipp/scipy/interpolate/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scipp/scipy/interpolate/__init__.py b/src/scipp/scipy/interpolate/__init__.py
index edde305..cf58523 100644
--- a/src/scipp/scipy/interpolate/__init__.py
+++ b/src/scipp/scipy/interpolate/__init__.py
@@ -213,7 +213,11 @@ def interp1d(
         sizes[dim] = x_.sizes[dim]
         # ynew is created in this manner to allow for creation of structured dtypes,
         # which is not possible using scipp.array
-        ynew = empty(sizes=sizes, unit=da.unit, dtype=da.dtype)
+        # Interpolated values are in general not integers and may be NaN.
+        dtype = (
+            DType.float64 if da.dtype in (DType.int64, DType.int32) else da.dtype
+        )
+        ynew = empty(sizes=sizes, unit=da.unit, dtype=dtype)
         ynew.values = f(x_.values)
         return DataArray(data=ynew, coords={dim: xnew})
 
-- 
2.43.0


From 3f7cb66a75f92374187c7adda46034b08c6c3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:59 +0000
Subject: [PATCH 087/104] fix: assert_identical and assert_allclose ignored the
 order of dims

---
 src/scipp/testing/assertions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scipp/testing/assertions.py b/src/scipp/testing/assertions.py
index 1aeb360..616b27a 100644
--- a/src/scipp/testing/assertions.py
+++ b/src/scipp/testing/assertions.py
@@ -148,6 +148,7 @@ def _assert_identical_structure(
 
 
 def _assert_identical_variable_structure(a: Variable, b: Variable) -> None:
+    assert a.dims == b.dims
     assert a.sizes == b.sizes
     assert a.unit == b.unit
     assert a.dtype == b.dtype
-- 
2.43.0


From 0a3ca4a547f02fc93c5f7cd0f35eac68b53b156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:59 +0000
Subject: [PATCH 088/104] fix: assert_identical and assert_allclose ignored how
 events are distributed over bins

---
 src/scipp/testing/assertions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scipp/testing/assertions.py b/src/scipp/testing/assertions.py
index 616b27a..25402e3 100644
--- a/src/scipp/testing/assertions.py
+++ b/src/scipp/testing/assertions.py
@@ -234,6 +234,8 @@ def _assert_identical_dense_variable_data(a: Variable, b: Variable) -> None:
 def _assert_identical_binned_variable_data(a: Variable, b: Variable) -> None:
     assert a.bins is not None
     assert b.bins is not None
+    with _add_note('bin sizes'):
+        _assert_identical_impl(a.bins.size(), b.bins.size())
     _assert_identical_impl(a.bins.concat().value, b.bins.concat().value)
 
 
@@ -292,6 +294,8 @@ def _assert_allclose_binned_variable_data(
 ) -> None:
     assert a.bins is not None
     assert b.bins is not None
+    with _add_note('bin sizes'):
+        _assert_identical_impl(a.bins.size(), b.bins.size())
     _assert_allclose_impl(a.bins.concat().value, b.bins.concat().value, **kwargs)
 
 
-- 
2.43.0


From 2a30583829349cfaf4a4c683979d05e89b0a7280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:14 +0000
Subject: [PATCH 089/104] fix: assert_identical ignored the coords of a dataset
 without items

---
 src/scipp/testing/assertions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scipp/testing/assertions.py b/src/scipp/testing/assertions.py
index 25402e3..a23471d 100644
--- a/src/scipp/testing/assertions.py
+++ b/src/scipp/testing/assertions.py
@@ -170,6 +170,7 @@ def _assert_identical_data_array_structure(a: DataArray, b: DataArray) -> None:
 
 
 def _assert_identical_dataset(a: Dataset, b: Dataset) -> None:
+    _assert_mapping_eq(a.coords, b.coords, 'coord')
     _assert_mapping_eq(a, b, 'dataset item')
 
 
-- 
2.43.0


From 86955bbd7a86bd50ab327f39a3709be7f880d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:07 +0000
Subject: [PATCH 090/104] fix: assert_identical and assert_allclose ignored the
 unit and dtype of the data of data arrays

---
 src/scipp/testing/assertions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scipp/testing/assertions.py b/src/scipp/testing/assertions.py
index a23471d..c252730 100644
--- a/src/scipp/testing/assertions.py
+++ b/src/scipp/testing/assertions.py
@@ -164,6 +164,7 @@ def _assert_identical_variable_structure(a: Variable, b: Variable) -> None:
 
 
 def _assert_identical_data_array_structure(a: DataArray, b: DataArray) -> None:
+    _assert_identical_variable_structure(a.data, b.data)
     _assert_mapping_eq(a.coords, b.coords, 'coord')
     _assert_mapping_eq(a.deprecated_attrs, b.deprecated_attrs, 'attr')
     _assert_mapping_eq(a.masks, b.masks, 'mask')
-- 
2.43.0


From 3a8fa113680cb0e19832458dfa5d840b131ade27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:27 +0000
Subject: [PATCH 091/104] fix: assert_identical failed for binned data of
 datasets

---
 src/scipp/testing/assertions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scipp/testing/assertions.py b/src/scipp/testing/assertions.py
index c252730..d79faaf 100644
--- a/src/scipp/testing/assertions.py
+++ b/src/scipp/testing/assertions.py
@@ -155,7 +155,9 @@ def _assert_identical_variable_structure(a: Variable, b: Variable) -> None:
     assert (a.bins is None) == (b.bins is None)
     if a.bins is not None:
         assert b.bins is not None
-        assert a.bins.unit == b.bins.unit
+        # Datasets have no unit, that of their items is compared with the events.
+        unit_a = getattr(a.bins, 'unit', None)
+        assert unit_a == getattr(b.bins, 'unit', None)
     else:
         if a.variances is not None:
             assert b.variances is not None, 'a has variances but b does not'
-- 
2.43.0


From e977d1f80a021e792f151cf702bc21b2fdf70490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:34 +0000
Subject: [PATCH 092/104] fix: converting arrays of one nested variable or data
 array to string failed

---
 lib/dataset/variable_instantiate_dataset.cpp | 2 +-
 lib/variable/variable_instantiate_basic.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/variable_instantiate_dataset.cpp b/lib/dataset/variable_instantiate_dataset.cpp
index 9323ca9..14278b2 100644
--- a/lib/dataset/variable_instantiate_dataset.cpp
+++ b/lib/dataset/variable_instantiate_dataset.cpp
@@ -12,7 +12,7 @@ namespace scipp::variable {
 template <>
 std::string Formatter<DataArray>::format(const Variable &var) const {
   if (var.dims().volume() == 1)
-    return "DataArray" + format_variable_like(var.value<DataArray>());
+    return "DataArray" + format_variable_like(var.values<DataArray>()[0]);
   return "[multiple data arrays]";
 }
 
diff --git a/lib/variable/variable_instantiate_basic.cpp b/lib/variable/variable_instantiate_basic.cpp
index 5806285..bfc0088 100644
--- a/lib/variable/variable_instantiate_basic.cpp
+++ b/lib/variable/variable_instantiate_basic.cpp
@@ -11,7 +11,7 @@ namespace scipp::variable {
 
 template <> std::string Formatter<Variable>::format(const Variable &var) const {
   if (var.dims().volume() == 1)
-    return "Variable" + format_variable_like(var.value<Variable>());
+    return "Variable" + format_variable_like(var.values<Variable>()[0]);
   return "[multiple variables]";
 }
 
-- 
2.43.0


From eaabbd8b28b2b3d12db1c8f017b930204524189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:34 +0000
Subject: [PATCH 093/104] fix: unmatched closing tags in HTML of coords and
 masks

---
 src/scipp/visualization/formatting_html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scipp/visualization/formatting_html.py b/src/scipp/visualization/formatting_html.py
index 0a006e8..e20e217 100644
--- a/src/scipp/visualization/formatting_html.py
+++ b/src/scipp/visualization/formatting_html.py
@@ -212,7 +212,7 @@ def summarize_mask(
 
 def summarize_coords(coords: Coords, ds: DataArray | Dataset | None = None) -> str:
     vars_li = "".join(
-        "<li class='sc-var-item'>" f"{summarize_coord(dim, var, ds)}" "</span></li>"
+        "<li class='sc-var-item'>" f"{summarize_coord(dim, var, ds)}</li>"
         for dim, var in _ordered_dict(coords).items()
     )
     return f"<ul class='sc-var-list'>{vars_li}</ul>"
@@ -220,7 +220,7 @@ def summarize_coords(coords: Coords, ds: DataArray | Dataset | None = None) -> s
 
 def summarize_masks(masks: Masks, ds: DataArray | Dataset | None = None) -> str:
     vars_li = "".join(
-        "<li class='sc-var-item'>" f"{summarize_mask(dim, var, ds)}" "</span></li>"
+        "<li class='sc-var-item'>" f"{summarize_mask(dim, var, ds)}</li>"
         for dim, var in _ordered_dict(masks).items()
     )
     return f"<ul class='sc-var-list'>{vars_li}</ul>"
-- 
2.43.0


From 523609e2e20bcf8a41448b95c4fdf82ce58bdeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:51 +0000
Subject: [PATCH 094/104] fix: showing bins of datasets failed

---
 src/scipp/visualization/show.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scipp/visualization/show.py b/src/scipp/visualization/show.py
index b742a19..d7186e4 100644
--- a/src/scipp/visualization/show.py
+++ b/src/scipp/visualization/show.py
@@ -133,7 +133,10 @@ class VariableDrawer:
         if isinstance(events, Variable):
             return 1
         else:
-            return 1 + 1.3 * (len(events.deprecated_meta) + len(events.masks))
+            n_item = len(events.coords)
+            if isinstance(events, DataArray):
+                n_item += len(events.deprecated_attrs) + len(events.masks)
+            return 1 + 1.3 * n_item
 
     def size(self) -> tuple[float, float]:
         """Return the size (width and height) of the rendered output"""
-- 
2.43.0


From 9c17c51735d48bdc5e9c6faf6817c90f85815eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:51 +0000
Subject: [PATCH 095/104] fix: names, strings, and NumPy dtypes were not
 escaped in HTML and SVG output

---
 src/scipp/visualization/formatting_datagroup_html.py | 2 +-
 src/scipp/visualization/show.py                      | 2 +-
 src/scipp/visualization/table.py                     | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/scipp/visualization/formatting_datagroup_html.py b/src/scipp/visualization/formatting_datagroup_html.py
index 947cf87..a25e7a4 100644
--- a/src/scipp/visualization/formatting_datagroup_html.py
+++ b/src/scipp/visualization/formatting_datagroup_html.py
@@ -101,7 +101,7 @@ def _summarize_atomic_variable(var: Any, name: str, depth: int = 0) -> str:
         preview = escape(_format_multi_dim_data(var))
     elif isinstance(var, np.ndarray):
         parent_obj_str = "numpy"
-        preview = f"shape={var.shape}, dtype={var.dtype}, values="
+        preview = escape(f"shape={var.shape}, dtype={var.dtype}, values=")
         preview += escape(_format_multi_dim_data(var))
 
     elif preview == '' and hasattr(var, "__str__"):
diff --git a/src/scipp/visualization/show.py b/src/scipp/visualization/show.py
index d7186e4..ba9a2e0 100644
--- a/src/scipp/visualization/show.py
+++ b/src/scipp/visualization/show.py
@@ -260,7 +260,7 @@ class VariableDrawer:
                     class="sc-name" style="font-size:#normal-font;{weight}"> \
                     {escape(brief_title)}</text>'
 
-            svg += f'<title>{title}({escape(details)})</title>'
+            svg += f'<title>{escape(str(title))}({escape(details)})</title>'
         else:
             svg = f'<text x="{x_pos}" y="{y_pos}" \
                     class="sc-name" style="font-size:#small-font;{weight}"> \
diff --git a/src/scipp/visualization/table.py b/src/scipp/visualization/table.py
index 2a29323..2456de1 100644
--- a/src/scipp/visualization/table.py
+++ b/src/scipp/visualization/table.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 
+from html import escape
 from typing import Any
 
 import numpy as np
@@ -17,7 +18,7 @@ def _string_in_cell(v: Variable) -> str:
     if v.bins is not None:
         return f'len={v.value.shape}'
     if v.dtype not in (DType.float32, DType.float64):
-        return str(v.value)
+        return escape(str(v.value))
     if v.variance is None:
         return f'{v.value:.3f}'
     err = np.sqrt(v.variance)
@@ -32,7 +33,7 @@ def _string_in_cell(v: Variable) -> str:
 
 
 def _var_name_with_unit(name: str, var: Variable) -> str:
-    out = f'<span style="font-weight: bold;">{name}</span>'
+    out = f'<span style="font-weight: bold;">{escape(name)}</span>'
     unit = var.bins.unit if var.bins is not None else var.unit
     if unit is not None:
         out += ' [𝟙]' if unit == 'dimensionless' else f' [{unit}]'  # noqa: RUF001
@@ -118,7 +119,7 @@ def _make_entries_header(ds: Dataset) -> str:
         out += f'<th colspan="{len(ds.coords)}"></th>'
     for name, da in sorted(ds.items()):
         ncols = 1 + len(da.masks) + len(da.deprecated_attrs)
-        out += f'<th style="{CENTER}" colspan="{ncols}">{name}</th>'
+        out += f'<th style="{CENTER}" colspan="{ncols}">{escape(name)}</th>'
     out += '</tr>'
     return out
 
-- 
2.43.0


From 889ffcb95821c4741dc2db369a8cfd32b5f692eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:51 +0000
Subject: [PATCH 096/104] fix: tables of bins of datasets failed

---
 src/scipp/visualization/table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scipp/visualization/table.py b/src/scipp/visualization/table.py
index 2456de1..497886b 100644
--- a/src/scipp/visualization/table.py
+++ b/src/scipp/visualization/table.py
@@ -34,7 +34,12 @@ def _string_in_cell(v: Variable) -> str:
 
 def _var_name_with_unit(name: str, var: Variable) -> str:
     out = f'<span style="font-weight: bold;">{escape(name)}</span>'
-    unit = var.bins.unit if var.bins is not None else var.unit
+    if var.bins is None:
+        unit = var.unit
+    elif isinstance(var.bins.constituents['data'], Dataset):
+        unit = None
+    else:
+        unit = var.bins.unit
     if unit is not None:
         out += ' [𝟙]' if unit == 'dimensionless' else f' [{unit}]'  # noqa: RUF001
     return out
-- 
2.43.0


From 31c1dbaa19ce3b3ca2420d710140aa4608ed88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:51 +0000
Subject: [PATCH 097/104] fix: formatting arrays of more than a few strings
 failed

---
 src/scipp/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scipp/format/formatter.py b/src/scipp/format/formatter.py
index b58c6d8..e366ff6 100644
--- a/src/scipp/format/formatter.py
+++ b/src/scipp/format/formatter.py
@@ -65,7 +65,7 @@ def _as_flat_array(data: npt.ArrayLike) -> npt.ArrayLike:
     if isinstance(data, np.ndarray):
         return data.flat
     if 'ElementArray' in repr(type(data)):
-        return data
+        return list(data)  # ElementArrayView does not support slicing
     return np.array([data])
 
 
-- 
2.43.0


From 0d1f59cb95b01f80a0973572d7b3dbd117694727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:07 +0000
Subject: [PATCH 098/104] fix: compact formatting of multi-dimensional
 variables failed

---
 src/scipp/format/formatter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scipp/format/formatter.py b/src/scipp/format/formatter.py
index e366ff6..49c4af1 100644
--- a/src/scipp/format/formatter.py
+++ b/src/scipp/format/formatter.py
@@ -160,8 +160,11 @@ def _format_variable_compact(var: Variable, spec: FormatSpec) -> str:
     if not _is_numeric(var.dtype):
         raise ValueError(f"Compact formatting is not supported for dtype {var.dtype}")
 
-    values = var.values if var.shape else np.array((var.value,))
-    variances = var.variances if var.shape else np.array((var.variance,))
+    values = np.ravel(var.values) if var.shape else np.array((var.value,))
+    if var.variances is None:
+        variances = None
+    else:
+        variances = np.ravel(var.variances) if var.shape else np.array((var.variance,))
     unt = "" if var.unit == Unit('dimensionless') else f" {var.unit}"
 
     # Iterate over array values to handle no- and infinite-precision cases
-- 
2.43.0


From 27b52f5c345885b79891622779074cca34adf211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:07 +0000
Subject: [PATCH 099/104] fix: compact formatting failed for variances that are
 not finite

---
 src/scipp/format/formatter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scipp/format/formatter.py b/src/scipp/format/formatter.py
index 49c4af1..b7c7018 100644
--- a/src/scipp/format/formatter.py
+++ b/src/scipp/format/formatter.py
@@ -185,7 +185,7 @@ def _is_numeric(dtype: DType) -> bool:
 def _round(
     value: float, variance: float | None
 ) -> tuple[float, float | None, float | None]:
-    from numpy import floor, log10, power, round, sqrt
+    from numpy import floor, isfinite, log10, power, round, sqrt
 
     # Treat 'infinite' precision the same as no variance
     if variance is None or variance == 0:
@@ -194,6 +194,10 @@ def _round(
     # The uncertainty is the square root of the variance
     error = sqrt(variance)
 
+    # There is no precision to round to
+    if not isfinite(error):
+        return value, error, None
+
     # Determine how many digits before (+) or after (-) the decimal place
     # the error allows for one-digit uncertainty of precision
     precision = floor(log10(error))
-- 
2.43.0


From e9194d4a3a0c76b2a199a5503f44be6ac34fd52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:18 +0000
Subject: [PATCH 100/104] fix: unclosed tag in HTML of nested data groups

---
 src/scipp/visualization/templates/dg_collapsible_row.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scipp/visualization/templates/dg_collapsible_row.html b/src/scipp/visualization/templates/dg_collapsible_row.html
index 1205108..3015084 100644
--- a/src/scipp/visualization/templates/dg_collapsible_row.html
+++ b/src/scipp/visualization/templates/dg_collapsible_row.html
@@ -9,7 +9,7 @@
         <input class='dg-detail-item-in' id='${summary_section_id}' type='checkbox' ${checkbox_status}>
         <div class='dg-detail-name' style='--depth: ${depth};'>
             <label for=${summary_section_id} title='Expand/collapse'>
-                <span>${name}<span>
+                <span>${name}</span>
             </label>
         </div>
         <div class='dg-detail-parent'>
-- 
2.43.0


From 3f45f53e7c81a391429c627baca14857d4c37de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:55 +0000
Subject: [PATCH 101/104] fix: tables failed for NaN variances

---
 src/scipp/visualization/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scipp/visualization/table.py b/src/scipp/visualization/table.py
index 497886b..9b5b1aa 100644
--- a/src/scipp/visualization/table.py
+++ b/src/scipp/visualization/table.py
@@ -27,7 +27,7 @@ def _string_in_cell(v: Variable) -> str:
     else:
         try:
             prec = max(3, -int(np.floor(np.log10(err))))
-        except OverflowError:
+        except (OverflowError, ValueError):
             prec = 3  # happens when err is non-finite
     return f'{v.value:.{prec}f}&plusmn;{err:.{prec}f}'
 
-- 
2.43.0


From b17d5fce002736a89f4b83c7e9c02bf0ea1e8f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:55 +0000
Subject: [PATCH 102/104] fix: showing slices of datasets with bin edges failed

---
 src/scipp/visualization/show.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/scipp/visualization/show.py b/src/scipp/visualization/show.py
index ba9a2e0..e4ae834 100644
--- a/src/scipp/visualization/show.py
+++ b/src/scipp/visualization/show.py
@@ -405,12 +405,15 @@ class DatasetDrawer:
 
     def _dims(self) -> tuple[str, ...]:
         dims = self._dataset.dims
+        # Handle, e.g., bin edges of a slice, where data lacks the edge dim
         if isinstance(self._dataset, DataArray):
-            # Handle, e.g., bin edges of a slice, where data lacks the edge dim
-            for item in self._dataset.deprecated_meta.values():
-                for dim in item.dims:
-                    if dim not in dims:
-                        dims = (dim, *dims)
+            items = self._dataset.deprecated_meta.values()
+        else:
+            items = self._dataset.coords.values()
+        for item in items:
+            for dim in item.dims:
+                if dim not in dims:
+                    dims = (dim, *dims)
         if len(dims) > 3:
             raise RuntimeError(f"Cannot visualize {len(dims)}-D data")
         return dims
-- 
2.43.0


From 847547017d2d6d41df3e424cc76f092915df6d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:55 +0000
Subject: [PATCH 103/104] fix: scoped unit aliases stayed defined when the
 scope was left by an exception

---
 src/scipp/units/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/scipp/units/__init__.py b/src/scipp/units/__init__.py
index e840721..fa23873 100644
--- a/src/scipp/units/__init__.py
+++ b/src/scipp/units/__init__.py
@@ -166,12 +166,14 @@ class UnitAliases:
         overridden = {
             name: unit for name, unit in self._aliases.items() if name in kwargs
         }
-        for name, unit in kwargs.items():
-            self[name] = unit
-        yield
-        self._del_aliases(*kwargs)
-        for name, unit in overridden.items():
-            self[name] = unit
+        try:
+            for name, unit in kwargs.items():
+                self[name] = unit
+            yield
+        finally:
+            self._del_aliases(*(name for name in kwargs if name in self._aliases))
+            for name, unit in overridden.items():
+                self[name] = unit
 
     def __iter__(self) -> Iterator[str]:
         """Iterator over alias names."""
-- 
2.43.0


From ef5e9c570cb16452d00cc0fbe0fb19386d38bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:14 +0000
Subject: [PATCH 104/104] Revert the fixes of testing/assertions.py: this file
 belongs to the tests

Reverts 3f7cb66, 0a3ca4a, 2a30583, 86955bb and 3a8fa11.
---
 src/scipp/testing/assertions.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/scipp/testing/assertions.py b/src/scipp/testing/assertions.py
index d79faaf..1aeb360 100644
--- a/src/scipp/testing/assertions.py
+++ b/src/scipp/testing/assertions.py
@@ -148,16 +148,13 @@ def _assert_identical_structure(
 
 
 def _assert_identical_variable_structure(a: Variable, b: Variable) -> None:
-    assert a.dims == b.dims
     assert a.sizes == b.sizes
     assert a.unit == b.unit
     assert a.dtype == b.dtype
     assert (a.bins is None) == (b.bins is None)
     if a.bins is not None:
         assert b.bins is not None
-        # Datasets have no unit, that of their items is compared with the events.
-        unit_a = getattr(a.bins, 'unit', None)
-        assert unit_a == getattr(b.bins, 'unit', None)
+        assert a.bins.unit == b.bins.unit
     else:
         if a.variances is not None:
             assert b.variances is not None, 'a has variances but b does not'
@@ -166,14 +163,12 @@ def _assert_identical_variable_structure(a: Variable, b: Variable) -> None:
 
 
 def _assert_identical_data_array_structure(a: DataArray, b: DataArray) -> None:
-    _assert_identical_variable_structure(a.data, b.data)
     _assert_mapping_eq(a.coords, b.coords, 'coord')
     _assert_mapping_eq(a.deprecated_attrs, b.deprecated_attrs, 'attr')
     _assert_mapping_eq(a.masks, b.masks, 'mask')
 
 
 def _assert_identical_dataset(a: Dataset, b: Dataset) -> None:
-    _assert_mapping_eq(a.coords, b.coords, 'coord')
     _assert_mapping_eq(a, b, 'dataset item')
 
 
@@ -238,8 +233,6 @@ def _assert_identical_dense_variable_data(a: Variable, b: Variable) -> None:
 def _assert_identical_binned_variable_data(a: Variable, b: Variable) -> None:
     assert a.bins is not None
     assert b.bins is not None
-    with _add_note('bin sizes'):
-        _assert_identical_impl(a.bins.size(), b.bins.size())
     _assert_identical_impl(a.bins.concat().value, b.bins.concat().value)
 
 
@@ -298,8 +291,6 @@ def _assert_allclose_binned_variable_data(
 ) -> None:
     assert a.bins is not None
     assert b.bins is not None
-    with _add_note('bin sizes'):
-        _assert_identical_impl(a.bins.size(), b.bins.size())
     _assert_allclose_impl(a.bins.concat().value, b.bins.concat().value, **kwargs)
 
 
-- 
2.43.0

