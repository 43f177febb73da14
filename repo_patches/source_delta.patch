From 4a7d733aa68d0d9df55a66513b42fd4720de4005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 01/89] fix: nearest index of decreasing integer and time axes

Half of the step was negative for a decreasing axis, so rounding went the
wrong way.
---
 .../core/include/pyinterp/detail/axis/container.hpp        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 9a7301b..e5cdd21 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -548,7 +548,8 @@ class Regular<T, typename std::enable_if<std::is_integral_v<T>>::type>
   Regular(const T start, const T stop, const T num)
       // The inverse step of this axis is stored in order to optimize the search
       // for an index for a given value by avoiding a division.
-      : AbstractRegular<T>(start, stop, num), step_2_(this->step_ >> 1) {}
+      : AbstractRegular<T>(start, stop, num),
+        step_2_((this->step_ < 0 ? -this->step_ : this->step_) >> 1) {}
 
   /// @copydoc Abstract::find_index(double,bool) const
   [[nodiscard]] constexpr auto find_index(T coordinate,
@@ -572,8 +573,8 @@ class Regular<T, typename std::enable_if<std::is_integral_v<T>>::type>
   /// search for the nearest index.
   T step_2_{};
 
-  /// Divide positive or negative dividend by positive divisor and round to
-  /// closest integer
+  /// Divide positive or negative dividend by divisor and round to closest
+  /// integer
   [[nodiscard]] constexpr auto round(int64_t numerator,
                                      int64_t denominator) const -> int64_t {
     return numerator > 0 ? (numerator + step_2_) / denominator
-- 
2.43.0


From 4bd505da7ba8b913eccb15f6a82a3eaaa11cac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 02/89] fix: decreasing longitude axes with irregular steps are
 circles

The increment of a decreasing axis is negative, so the circle was never
detected, and beyond the seam the nearest end was the wrong one.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 7e5e0a2..ae352a8 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -296,9 +296,9 @@ class Axis {
     coordinate = normalize_coordinate(coordinate);
     auto result = axis_->find_index(coordinate, bounded);
     if (result == -1 && is_circle_) {
-      result = (coordinate - max_value()) < (min_value() + 360 - coordinate)
-                   ? this->size() - 1
-                   : 0;
+      auto nearest_to_max =
+          (coordinate - max_value()) < (min_value() + 360 - coordinate);
+      result = nearest_to_max == is_ascending() ? this->size() - 1 : 0;
     }
     return result;
   }
@@ -512,7 +512,7 @@ class Axis {
         is_circle_ = math::is_same(
             static_cast<T>(std::fabs(ptr->step() * size())), circle_, epsilon);
       } else {
-        auto increment = (axis_->back() - axis_->front()) /
+        auto increment = (axis_->max_value() - axis_->min_value()) /
                          static_cast<T>(axis_->size() - 1);
         is_circle_ = std::fabs((axis_->max_value() - axis_->min_value()) -
                                circle_) <= increment;
-- 
2.43.0


From 55463a8db1e3addded60a6fe2612613dcc3f4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 03/89] fix: the clamped nearest lookup wraps around on a
 circle

---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index ae352a8..61f6711 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -294,8 +294,9 @@ class Axis {
                                                   const bool bounded) const
       -> int64_t {
     coordinate = normalize_coordinate(coordinate);
-    auto result = axis_->find_index(coordinate, bounded);
-    if (result == -1 && is_circle_) {
+    // No coordinate is located outside of a circle.
+    auto result = axis_->find_index(coordinate, bounded && !is_circle_);
+    if (result == -1 && is_circle_ && math::Fill<T>::is_not(coordinate)) {
       auto nearest_to_max =
           (coordinate - max_value()) < (min_value() + 360 - coordinate);
       result = nearest_to_max == is_ascending() ? this->size() - 1 : 0;
-- 
2.43.0


From 83fb34a357975dd21c6902b9632bc2af75328352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 04/89] fix: undefined and huge coordinates are outside of an
 axis

---
 .../core/include/pyinterp/detail/axis.hpp       |  5 +++--
 .../include/pyinterp/detail/axis/container.hpp  | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 61f6711..28c83b6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -322,8 +322,9 @@ class Axis {
     /// If the value is outside the circle, then the value is between the last
     /// and first index.
     if (i0 == -1) {
-      return is_circle_ ? std::make_tuple(static_cast<int64_t>(length - 1), 0LL)
-                        : std::optional<std::tuple<int64_t, int64_t>>();
+      return is_circle_ && math::Fill<T>::is_not(coordinate)
+                 ? std::make_tuple(static_cast<int64_t>(length - 1), 0LL)
+                 : std::optional<std::tuple<int64_t, int64_t>>();
     }
 
     // Given the delta between the found coordinate and the given coordinate,
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index e5cdd21..5ebc96b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -340,6 +340,11 @@ class Irregular : public Abstract<T> {
   [[nodiscard]] constexpr auto find_index(const T coordinate,
                                           const bool bounded, int64_t size,
                                           Compare cmp) const -> int64_t {
+    // An undefined coordinate is located nowhere.
+    if (std::is_floating_point_v<T> && math::Fill<T>::is(coordinate)) {
+      return -1;
+    }
+
     auto begin = points_.data();
     auto end = points_.data() + size;
     auto it = std::lower_bound(begin, end, coordinate, cmp);
@@ -513,17 +518,21 @@ class Regular<T, typename std::enable_if<std::is_floating_point_v<T>>::type>
   /// @copydoc Abstract::find_index(double,bool) const
   [[nodiscard]] auto find_index(T coordinate, bool bounded) const noexcept
       -> int64_t override {
-    auto index = static_cast<int64_t>(
-        std::round((coordinate - this->start_) * inv_step_));
+    const auto index = std::round((coordinate - this->start_) * inv_step_);
+
+    // An undefined coordinate is located nowhere.
+    if (math::Fill<T>::is(index)) {
+      return -1;
+    }
 
     if (index < 0) {
       return bounded ? 0 : -1;
     }
 
-    if (index >= this->size_) {
+    if (index >= static_cast<T>(this->size_)) {
       return bounded ? this->size_ - 1 : -1;
     }
-    return index;
+    return static_cast<int64_t>(index);
   }
 
   /// @copydoc Abstract::flip()
-- 
2.43.0


From 2652be4177ccd30309263408ec6885a5905ccbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 05/89] fix: bins across the date line collect the samples
 nearest to them

---
 src/pyinterp/core/include/pyinterp/binning.hpp     | 6 +++---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index adc2197..d78fb37 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -295,8 +295,8 @@ class Binning2D {
         auto value = _z(idx);
 
         if (!std::isnan(value)) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             acc_(ix, iy)(value);
@@ -405,7 +405,7 @@ class Binning1D : public Binning2D<T> {
         if (!std::isnan(value)) {
           auto xi = _x(idx);
           if (xi >= this->x_min_ && xi <= this->x_max_) {
-            auto ix = x_axis.find_index(xi, true);
+            auto ix = x_axis.find_nearest_index(xi, true);
 
             if (ix != -1) {
               auto weight = weights.has_value() ? _weights(idx) : 1;
diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index c53a5a4..352b9c7 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -93,8 +93,8 @@ class Histogram2D {
         auto value = _z(idx);
 
         if (!std::isnan(value)) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             histogram_(ix, iy)(value);
-- 
2.43.0


From ee4580c10f7909a4926a7ecff0fe507a1ff69af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 06/89] fix: interpolation in the cell that crosses the seam of
 a circle

The longitude of the second column was not expressed on the turn of the
first one, and decreasing axes were taken on the wrong side.
---
 .../core/include/pyinterp/bivariate.hpp       |  6 +++---
 .../core/include/pyinterp/detail/axis.hpp     | 21 +++++++++++++++++++
 .../core/include/pyinterp/quadrivariate.hpp   |  6 +++---
 .../core/include/pyinterp/trivariate.hpp      |  6 +++---
 4 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index bc36a5a..b53e7cc 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -83,10 +83,10 @@ inline auto _bivariate(
     auto [ix0, ix1] = *x_indexes;
     auto [iy0, iy1] = *y_indexes;
 
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y);
+    auto [xi, x0, x1] = x_axis.frame_coordinate(x, ix0, ix1);
+    auto p = Point<Coordinate>(xi, y);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1));
 
     return interpolator->evaluate(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0)),
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 28c83b6..2569721 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -356,6 +356,27 @@ class Axis {
     return std::optional<std::tuple<int64_t, int64_t>>{};
   }
 
+  /// Get the position of a coordinate within the cell (i0, i1) that frames it.
+  ///
+  /// @param coordinate position in this coordinate system
+  /// @param i0 index of the first bound of the cell
+  /// @param i1 index of the second bound of the cell
+  /// @return the coordinate and the values of the axis at i0 and i1. On a
+  /// circle, the three values are expressed on the same turn.
+  [[nodiscard]] constexpr auto frame_coordinate(const T coordinate,
+                                                const int64_t i0,
+                                                const int64_t i1) const
+      -> std::tuple<T, T, T> {
+    const auto x = normalize_coordinate(coordinate);
+    auto x0 = (*this)(i0);
+    auto x1 = (*this)(i1);
+    if (is_circle_ && x > max_value()) {
+      // The cell is located between the end and the start of the circle.
+      (x0 < x1 ? x0 : x1) += circle_;
+    }
+    return std::make_tuple(x, x0, x1);
+  }
+
   /// Create a table of "size" indices located on either side of the required
   /// position.
   ///
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index fa3b694..ef445a2 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -62,10 +62,10 @@ inline auto _quadrivariate(
     auto [iu0, iu1] = *u_indexes;
 
     // The fourth coordinate is not used by the 3D interpolator.
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto [xi, x0, x1] = x_axis.frame_coordinate(x, ix0, ix1);
+    auto p = Point<Coordinate>(xi, y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     auto u0 = pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0, iu0)),
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 8d53c30..518d3a3 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -42,10 +42,10 @@ inline auto _trivariate(const Grid3D<Type, AxisType> &grid, const Coordinate &x,
     auto [iz0, iz1] = *z_indexes;
 
     // The fourth coordinate is not used by the 3D interpolator.
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto [xi, x0, x1] = x_axis.frame_coordinate(x, ix0, ix1);
+    auto p = Point<Coordinate>(xi, y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     return pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0)),
-- 
2.43.0


From 5348a40eb6a8b3b9678b8becb7c7bf6e7c5049ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 07/89] fix: linear binning in the cell that crosses the seam
 of a circle

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index d78fb37..07d08df 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -342,16 +342,11 @@ class Binning2D {
           auto [ix0, ix1] = *x_indexes;
           auto [iy0, iy1] = *y_indexes;
 
-          auto x0 = x_axis(ix0);
+          auto [xi, x0, x1] = x_axis.frame_coordinate(_x(idx), ix0, ix1);
 
           auto weights = detail::math::binning_2d<Point, Strategy, double>(
-              Point<double>(x_axis.is_angle()
-                                ? detail::math::normalize_angle<double>(
-                                      _x(idx), x0, 360.0)
-                                : _x(idx),
-                            _y(idx)),
-              Point<double>(x0, y_axis(iy0)),
-              Point<double>(x_axis(ix1), y_axis(iy1)), strategy);
+              Point<double>(xi, _y(idx)), Point<double>(x0, y_axis(iy0)),
+              Point<double>(x1, y_axis(iy1)), strategy);
 
           update_acc(ix0, iy0, value, static_cast<T>(std::get<0>(weights)));
           update_acc(ix0, iy1, value, static_cast<T>(std::get<1>(weights)));
-- 
2.43.0


From 423de2b0fbc43282f1088a47aebde728497725ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 08/89] fix: flipping or pickling a regular axis gives back its
 exact values

The last value was computed from the first one and the step, so flipping
twice moved the first value and the flipped axis was not equal any more.
---
 .../include/pyinterp/detail/axis/container.hpp     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 5ebc96b..ef7bffb 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -393,8 +393,11 @@ class AbstractRegular : public Abstract<T> {
           "value.");
     }
     step_ = num == 1 ? stop - start : (stop - start) / (num - 1);
-    // The inverse step of this axis is stored in order to optimize the search
-    // for an index for a given value by avoiding a division.
+    // The last value is stored because it cannot be calculated exactly from
+    // the first value and the step between real numbers.
+    stop_ = std::is_floating_point_v<T> && size_ > 1
+                ? stop
+                : static_cast<T>(start_ + (size_ - 1) * step_);
     this->is_ascending_ = this->calculate_is_ascending();
   }
 
@@ -428,7 +431,7 @@ class AbstractRegular : public Abstract<T> {
 
   /// @copydoc Abstract::flip()
   auto flip() -> void override {
-    start_ = back();
+    std::swap(start_, stop_);
     step_ = -step_;
     this->is_ascending_ = !this->is_ascending_;
   }
@@ -436,7 +439,8 @@ class AbstractRegular : public Abstract<T> {
   /// @copydoc Abstract::coordinate_value(const int64_t) const
   [[nodiscard]] constexpr auto coordinate_value(
       const int64_t index) const noexcept -> T override {
-    return static_cast<T>(start_ + index * step_);
+    return index == size_ - 1 ? stop_
+                              : static_cast<T>(start_ + index * step_);
   }
 
   /// @copydoc Abstract::slice(const int64_t, const int64_t) const
@@ -490,6 +494,8 @@ class AbstractRegular : public Abstract<T> {
   int64_t size_{};
   /// Value of the first item in the container.
   T start_{};
+  /// Value of the last item in the container.
+  T stop_{};
   /// The step between two succeeding values.
   T step_{};
 };
-- 
2.43.0


From 1e0df2df4af14024166e2b5fb73813a004b1228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 09/89] fix: pickled or flipped axes of a part of the circle
 remain longitudes

---
 src/pyinterp/core/include/pyinterp/axis.hpp      | 16 ++++++++++++----
 .../core/include/pyinterp/detail/axis.hpp        |  8 +++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index b846c03..e35eb37 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -203,7 +203,7 @@ class Axis : public detail::Axis<T>,
       if (ptr != nullptr) {
         return pybind11::make_tuple(detail::axis::REGULAR, ptr->front(),
                                     ptr->back(), ptr->size(),
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Irregular
@@ -217,7 +217,7 @@ class Axis : public detail::Axis<T>,
           _values[ix] = ptr->coordinate_value(ix);
         }
         return pybind11::make_tuple(detail::axis::IRREGULAR, values,
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Undefined
@@ -246,18 +246,26 @@ class Axis : public detail::Axis<T>,
             std::unique_ptr<detail::axis::container::Abstract<T>>(
                 new detail::axis::container::Irregular<T>(Eigen::Map<Vector<T>>(
                     ndarray.mutable_data(), ndarray.size()))),
-            state[2].cast<bool>());
+            state[2].cast<bool>(), angle_flag(state, 3));
       }
       case detail::axis::REGULAR:
         return Axis(std::unique_ptr<detail::axis::container::Abstract<T>>(
                         new detail::axis::container::Regular<T>(
                             state[1].cast<T>(), state[2].cast<T>(),
                             state[3].cast<T>())),
-                    state[4].cast<bool>());
+                    state[4].cast<bool>(), angle_flag(state, 5));
       default:
         throw std::invalid_argument("invalid state");
     }
   }
+
+ private:
+  /// Does the registered state describe an angle? (in the states that do not
+  /// store this information, the item preceding it tells if this is a circle).
+  static auto angle_flag(const pybind11::tuple &state, const size_t index)
+      -> bool {
+    return state[index < state.size() ? index : index - 1].cast<bool>();
+  }
 };
 
 }  // namespace pyinterp
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 2569721..2a9cfaa 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -485,10 +485,12 @@ class Axis {
   /// Construction of a serialized instance.
   ///
   /// @param axis Axis handler
-  /// @param is_circle True, if the axis can represent a circle.
-  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle)
+  /// @param is_circle True, if the axis represents a circle.
+  /// @param is_angle True, if the axis represents an angle.
+  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle,
+       const bool is_angle)
       : is_circle_(is_circle),
-        circle_(is_circle_ ? T(360) : math::Fill<T>::value()),
+        circle_(is_angle ? T(360) : math::Fill<T>::value()),
         axis_(std::move(axis)) {}
 
  private:
-- 
2.43.0


From e796722fcbdb740868ceb417339841ced0aa935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 10/89] fix: longitude axes whose first step crosses the date
 line

The direction of such an axis was misjudged: it was refused or its values
were unwrapped on the wrong side.
---
 .../core/include/pyinterp/detail/axis.hpp     | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 2a9cfaa..803d3d9 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -545,6 +545,25 @@ class Axis {
     }
   }
 
+  /// Add (or subtract) a turn to the longitudes located after the date line.
+  auto unwrap_longitude(const Vector<T> &points, const bool ascending)
+      -> std::unique_ptr<Vector<T>> {
+    auto result = std::make_unique<Vector<T>>(points);
+    auto cross = false;
+
+    for (Eigen::Index ix = 1; ix < result->size(); ++ix) {
+      if (!cross) {
+        cross = ascending ? (*result)[ix - 1] > (*result)[ix]
+                          : (*result)[ix - 1] < (*result)[ix];
+      }
+
+      if (cross) {
+        (*result)[ix] += ascending ? circle_ : -circle_;
+      }
+    }
+    return result;
+  }
+
   /// Put longitude into the range [0, circle_] degrees.
   auto normalize_longitude(const Vector<T> &points)
       -> std::unique_ptr<Vector<T>> {
@@ -561,17 +580,13 @@ class Axis {
     }
 
     if (!monotonic) {
-      auto result = std::make_unique<Vector<T>>(points);
-      auto cross = false;
-
-      for (Eigen::Index ix = 1; ix < result->size(); ++ix) {
-        if (!cross) {
-          cross = ascending ? (*result)[ix - 1] > (*result)[ix]
-                            : (*result)[ix - 1] < (*result)[ix];
-        }
-
-        if (cross) {
-          (*result)[ix] += ascending ? circle_ : -circle_;
+      // The first two values may be located on either side of the date line:
+      // both directions must be considered.
+      auto result = unwrap_longitude(points, ascending);
+      if (std::fabs((*result)[result->size() - 1] - (*result)[0]) > circle_) {
+        auto other = unwrap_longitude(points, !ascending);
+        if (std::fabs((*other)[other->size() - 1] - (*other)[0]) <= circle_) {
+          return other;
         }
       }
       return result;
-- 
2.43.0


From 0ff4d7fc5389400d597d3685acd826573e5e24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 11/89] fix: empty lists of periods or dates in period
 membership tests

---
 src/pyinterp/core/include/pyinterp/period.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 65e388f..afc3078 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -255,6 +255,11 @@ class PeriodList {
     auto flags = Eigen::Matrix<bool, -1, 1>(dates.size());
     flags.setConstant(false);
 
+    // No dates, no crossings.
+    if (dates.size() == 0) {
+      return flags;
+    }
+
     // Index of the traversed date.
     auto ix = int64_t(0);
 
@@ -326,7 +331,7 @@ class PeriodList {
 
       while (ix < dates.size()) {
         const auto date = dates(ix);
-        while (!it->contains(date) && !it->is_after(date) && it != end) {
+        while (it != end && !it->contains(date) && !it->is_after(date)) {
           ++it;
         }
         if (it == end) {
-- 
2.43.0


From 033b80f23126f9a3f1fd9943b6262b395e725491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 12/89] fix: joining overlapping periods keeps the instants of
 the longest one

---
 src/pyinterp/core/include/pyinterp/period.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index afc3078..a57a55c 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -2,6 +2,7 @@
 #include <pybind11/pybind11.h>
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <cstdint>
 #include <optional>
 
@@ -379,9 +380,10 @@ class PeriodList {
 
     auto ix = int64_t(1);
     for (auto jx = int64_t(1); jx < result.periods_.size(); ++jx) {
-      auto dt = periods_[jx].begin - periods_[jx - 1].last;
+      auto dt = periods_[jx].begin - result.periods_(ix - 1).last;
       if (dt <= epsilon) {
-        result.periods_(ix - 1).last = periods_[jx].last;
+        result.periods_(ix - 1).last =
+            std::max(result.periods_(ix - 1).last, periods_[jx].last);
       } else {
         result.periods_(ix) = periods_[jx];
         ++ix;
-- 
2.43.0


From 3439cc34771bcb9e6326f88b303ae1797bdcc385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 13/89] fix: PeriodList.within only keeps the periods within
 the given period

---
 src/pyinterp/core/include/pyinterp/period.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index a57a55c..2ae4e50 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -402,7 +402,7 @@ class PeriodList {
     auto result = PeriodList(periods_);
     auto ix = int64_t(0);
     for (auto jx = int64_t(0); jx < result.periods_.size(); ++jx) {
-      if (period.intersects(result.periods_(jx))) {
+      if (period.contains(result.periods_(jx))) {
         result.periods_(ix) = result.periods_(jx);
         ++ix;
       }
-- 
2.43.0


From 2e89ff489497fa4cf78564be2ec5e0198407bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 14/89] fix: period lists handle periods of another resolution

---
 src/pyinterp/period.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index e13397f..cc4c763 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -380,6 +380,7 @@ class PeriodList:
         Returns:
             A new PeriodList with only periods within the given period.
         """
+        period = period.as_resolution(_time64_unit(self._datetime64))
         return PeriodList(self._instance.within(period.as_base_class()),
                           dtype=self._datetime64)
 
@@ -394,6 +395,7 @@ class PeriodList:
             A new PeriodList with only periods that intersect the given
             period.
         """
+        period = period.as_resolution(_time64_unit(self._datetime64))
         return PeriodList(self._instance.intersection(period.as_base_class()),
                           dtype=self._datetime64)
 
@@ -431,8 +433,10 @@ class PeriodList:
             A new PeriodList with the periods merged.
         """
         if self._datetime64 != other._datetime64:
-            periods = other.periods.astype(self._datetime64)
-            other = PeriodList(periods, dtype=self._datetime64)
+            periods = other.periods
+            other = PeriodList(
+                numpy.array([periods['begin'], periods['last']
+                             ]).astype(self._datetime64))
         self._instance.merge(other._instance)
         return self
 
-- 
2.43.0


From 0a90555ed82674941bc246cb0daf11a8f3da4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 15/89] fix: nearest date along a time axis with a fine
 resolution

---
 .../core/include/pyinterp/detail/math/nearest.hpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
index 0f3456c..5f2d78e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
@@ -17,10 +17,10 @@ namespace pyinterp::detail::math {
 template <typename T, typename U = T>
 constexpr auto nearest(const T &x, const T &x0, const T &x1, const U &y0,
                        const U &y1) noexcept -> U {
-  // we use a comparable distance, there's no need to calculate the square root
-  // here
-  auto dx0 = sqr(x0 - x);
-  auto dx1 = sqr(x1 - x);
+  // The squares of integer distances (e.g. nanoseconds) may overflow: we compare
+  // the distances themselves.
+  auto dx0 = x0 < x ? x - x0 : x0 - x;
+  auto dx1 = x1 < x ? x - x1 : x1 - x;
 
   return dx0 < dx1 ? y0 : y1;
 }
-- 
2.43.0


From 51e7886cdf6a2523e0317855ebee245864c9ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 16/89] fix: computations in threads may fail in several
 threads at once

The threads stored their exceptions in the same std::exception_ptr without
synchronisation, which corrupts the heap when two of them fail together, for
example when several points are outside of the domain and errors are
requested.
---
 src/pyinterp/core/include/pyinterp/bivariate.hpp     |  2 +-
 src/pyinterp/core/include/pyinterp/detail/thread.hpp | 12 ++++++++++++
 src/pyinterp/core/include/pyinterp/fill.hpp          | 10 +++++-----
 .../core/include/pyinterp/geodetic/algorithm.hpp     |  4 ++--
 .../core/include/pyinterp/geodetic/coordinates.hpp   |  6 +++---
 src/pyinterp/core/include/pyinterp/quadrivariate.hpp |  2 +-
 src/pyinterp/core/include/pyinterp/rtree.hpp         | 12 ++++++------
 src/pyinterp/core/include/pyinterp/trivariate.hpp    |  2 +-
 src/pyinterp/core/lib/geodetic/line_string.cpp       |  4 ++--
 src/pyinterp/core/lib/geodetic/rtree.cpp             |  8 ++++----
 src/pyinterp/core/module/bicubic.cpp                 |  6 +++---
 11 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index b53e7cc..05afa6e 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -143,7 +143,7 @@ auto bivariate(const Grid2D<Type> &grid, const pybind11::array_t<Coordinate> &x,
                                        interpolator, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 2cd1dd3..1444c11 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -3,11 +3,23 @@
 // All rights reserved. Use of this source code is governed by a
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
+#include <exception>
+#include <mutex>
 #include <thread>
 #include <vector>
 
 namespace pyinterp::detail {
 
+/// Stores the exception being handled, to rethrow it once the threads that may
+/// throw it at the same time are joined. Must be called from a catch block.
+///
+/// @param except Pointer shared by the threads
+inline void store_exception(std::exception_ptr &except) {
+  static std::mutex mutex;
+  auto lock = std::lock_guard(mutex);
+  except = std::current_exception();
+}
+
 /// Automates the cutting of vectors to be processed in thread.
 ///
 /// @param worker Lambda function called in each thread launched
diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index d7c1305..b65261c 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -69,7 +69,7 @@ void set_zonal_average(pybind11::EigenDRef<Matrix<Type>> &grid,
             }
           }
         } catch (...) {
-          except = std::current_exception();
+          detail::store_exception(except);
         }
       },
       grid.cols(), num_threads);
@@ -146,7 +146,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::store_exception(except);
     }
   };
 
@@ -497,7 +497,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::store_exception(except);
     }
   };
 
@@ -608,7 +608,7 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::store_exception(except);
     }
   };
 
@@ -667,7 +667,7 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::store_exception(except);
     }
   };
 
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
index efbc60b..ec3a2bd 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
@@ -94,7 +94,7 @@ template <typename Geometry1, typename Geometry2>
                   Geometry1(lon(ix), lat(ix)), geometry2);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -170,7 +170,7 @@ template <typename Geometry, typename Strategy>
                   strategy);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
index 4f7c368..77aac9e 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
@@ -63,7 +63,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 _alt(ix) = boost::geometry::get<2>(lla);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -111,7 +111,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 z_(ix) = boost::geometry::get<2>(ecef);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -159,7 +159,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 _alt2(ix) = boost::geometry::get<2>(lla);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index ef445a2..22ccb73 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -166,7 +166,7 @@ auto quadrivariate(const Grid4D<Type, AxisType> &grid,
                   u_interpolation_method, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index c86cb38..e3ccb5e 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -575,7 +575,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 }
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -659,7 +659,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 }
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -714,7 +714,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -773,7 +773,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -832,7 +832,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -890,7 +890,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 518d3a3..c75ef96 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -121,7 +121,7 @@ auto trivariate(const Grid3D<Type, AxisType> &grid,
                                         z_interpolation_method, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index 2340cc5..aea2532 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -235,7 +235,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
           result_lat[ix] = point.lat();
         }
       } catch (...) {
-        except = std::current_exception();
+        detail::store_exception(except);
       }
     };
     detail::dispatch(worker, lon.size(), num_threads);
@@ -248,7 +248,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
           result_lat[ix] = point.lat();
         }
       } catch (...) {
-        except = std::current_exception();
+        detail::store_exception(except);
       }
     };
     detail::dispatch(worker, lon.size(), num_threads);
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 0a6aedb..426dfb6 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -133,7 +133,7 @@ auto RTree::query(const Eigen::Ref<const Vector<double>> &lon,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -181,7 +181,7 @@ auto RTree::inverse_distance_weighting(
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -239,7 +239,7 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -290,7 +290,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/module/bicubic.cpp b/src/pyinterp/core/module/bicubic.cpp
index a097442..0144503 100644
--- a/src/pyinterp/core/module/bicubic.cpp
+++ b/src/pyinterp/core/module/bicubic.cpp
@@ -82,7 +82,7 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
                       : std::numeric_limits<double>::quiet_NaN();
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -147,7 +147,7 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -226,7 +226,7 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
-- 
2.43.0


From b96a5f443997caaa1938f6df125f44648b46b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 17/89] fix: coefficients of the polynomial interpolation

The divided differences used the spacing of consecutive points at every order
and overwrote the values still to be read, so the polynomial did not pass
through the data.
---
 .../pyinterp/detail/interpolation/polynomial.hpp      | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 4fea5ea..40a9239 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -65,18 +65,17 @@ constexpr auto Polynomial<T>::compute_coefficients(const Vector<T> &xa,
       (ya.segment(1, size - 1) - ya.segment(0, size - 1)).array() /
       (xa.segment(1, size - 1) - xa.segment(0, size - 1)).array();
   for (Eigen::Index ix = 2; ix < size; ix++) {
-    work_.segment(ix, size - ix) =
-        (work_.segment(ix, size - ix) - work_.segment(ix - 1, size - ix))
-            .array() /
-        (xa.segment(ix, size - ix) - xa.segment(ix - 1, size - ix)).array();
+    for (Eigen::Index jx = size - 1; jx >= ix; --jx) {
+      work_(jx) = (work_(jx) - work_(jx - 1)) / (xa(jx) - xa(jx - ix));
+    }
   }
 }
 
 template <typename T>
 auto Polynomial<T>::taylor(const Vector<T> &xa, const T &x) const -> Vector<T> {
   auto size = xa.size();
-  auto c = Vector<T>(size);
-  auto w = Vector<T>(size);
+  Vector<T> c = Vector<T>::Zero(size);
+  Vector<T> w = Vector<T>::Zero(size);
   w(size - 1) = T(1);
   c(0) = work_(0);
   for (Eigen::Index ix = size - 1; ix--;) {
-- 
2.43.0


From 7a2eaff9f2f318098798a0b88f357f2097d37d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 18/89] fix: slopes used by the akima interpolation

The slopes of the intervals are stored after the two extra slopes of the left
boundary, which the evaluation ignored: the curve did not pass through the
data.
---
 .../core/include/pyinterp/detail/interpolation/akima.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index bca47a6..2102a96 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -103,8 +103,9 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
   const auto h = x - xa(i0);
   const auto ai = ya(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  // The slopes are stored after the two extra points of the left boundary.
+  const auto ci = (3 * m_[i0 + 2] - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0 + 2]) / (dx * dx);
   return ai + h * (bi + h * (ci + h * di));
 }
 
@@ -119,8 +120,8 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
   const auto dx = xa(i1) - xa(i0);
   const auto h = x - xa(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  const auto ci = (3 * m_[i0 + 2] - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0 + 2]) / (dx * dx);
   return bi + h * (2 * ci + h * 3 * di);
 }
 
-- 
2.43.0


From 545659eb834ee572861d8ac7ee06396d5d78a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 19/89] fix: boundary conditions of the akima interpolations

The slopes at both ends ignored the extra intervals computed for this purpose,
so that the periodic variant was not periodic and the natural one did not
follow Akima's definition.
---
 .../core/include/pyinterp/detail/interpolation/akima.hpp    | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index 2102a96..8646b69 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -74,7 +74,7 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
   boundary_condition(m, size);
 
   // Compute the spline slopes of the lines between the points.
-  for (Eigen::Index ix = 2; ix < size - 2; ++ix) {
+  for (Eigen::Index ix = 0; ix < size; ++ix) {
     auto denominator =
         std::abs(m[ix + 1] - m[ix]) + std::abs(m[ix - 1] - m[ix - 2]);
     if (denominator != 0) {
@@ -85,10 +85,6 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
       s_(ix) = (m[ix - 1] + m[ix]) * 0.5;
     }
   }
-  s_(0) = m[0];
-  s_(1) = (m[0] + m[2]) * 0.5;
-  s_(size - 2) = (m[size - 3] + m[size - 1]) * 0.5;
-  s_(size - 1) = m[size - 1];
 }
 
 template <typename T>
-- 
2.43.0


From 5bf1aa4a359f4dc36dc61f9f981f4ce0c8dcd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 20/89] fix: periodic splines of three points and of windows of
 several sizes

The linear system kept the size, and some coefficients, of the largest window
seen so far, so that a result depended on the points interpolated before, and
the solver read outside of the system of a window of three points.
---
 .../detail/interpolation/cspline_periodic.hpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
index 2847961..5c83a43 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
@@ -47,6 +47,15 @@ constexpr auto CSplinePeriodic<T>::solve_symmetric_cyclic_tridiagonal(T *x)
     x[0] = this->b_(0) / this->A_(0, 0);
     return;
   }
+  if (size == 2) {
+    const auto a = this->A_(0, 0);
+    const auto b = this->A_(0, 1);
+    const auto d = this->A_(1, 1);
+    const auto det = a * d - b * b;
+    x[0] = (this->b_(0) * d - b * this->b_(1)) / det;
+    x[1] = (a * this->b_(1) - b * this->b_(0)) / det;
+    return;
+  }
 
   alpha_(0) = this->A_(0, 0);
   gamma_(0) = this->A_(0, 1) / alpha_(0);
@@ -96,7 +105,7 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
                                               const Vector<T> &ya) -> void {
   Interpolator1D<T>::compute_coefficients(xa, ya);
   auto size = xa.size();
-  if (this->x_.size() < size) {
+  if (this->x_.size() != size) {
     this->A_.resize(size - 1, size - 1);
     this->b_.resize(size - 1);
     this->x_.resize(size);
@@ -129,9 +138,12 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
   const auto g_i0 = (h_i0 != 0) ? 1 / h_i0 : 0;
   const auto g_i1 = (h_i1 != 0) ? 1 / h_i1 : 0;
 
-  this->A_(i, 0) = h_i1;
+  // With two unknowns, each one is the neighbor of the other on both sides.
+  const auto h_i = size == 3 ? h_i0 + h_i1 : h_i1;
+
+  this->A_(i, 0) = h_i;
+  this->A_(0, i) = h_i;
   this->A_(i, i) = 2 * (h_i0 + h_i1);
-  this->A_(0, i) = h_i1;
   this->b_(i) = 3 * (y_i1 * g_i1 - y_i0 * g_i0);
   solve_symmetric_cyclic_tridiagonal(this->x_.data() + 1);
   this->x_(0) = this->x_(size - 1);
-- 
2.43.0


From 5c341e216b96436062960381749d3a7be549d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 21/89] fix: interpolations outside of the data are undefined

The interpolators threw a number, which no caller catches, instead of
returning an undefined value as their documentation and the other
interpolators do.
---
 .../core/include/pyinterp/detail/interpolation/akima.hpp      | 4 ++--
 .../core/include/pyinterp/detail/interpolation/bicubic.hpp    | 2 +-
 .../core/include/pyinterp/detail/interpolation/bilinear.hpp   | 2 +-
 .../core/include/pyinterp/detail/interpolation/polynomial.hpp | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index 8646b69..7c525eb 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -92,7 +92,7 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
                                       const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
@@ -110,7 +110,7 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
                                      const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
index 12f7ef9..7adca3f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
@@ -78,7 +78,7 @@ constexpr auto Bicubic<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   const auto [i0, i1] = *search_x;
   const auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
index 80fdc43..25b94fc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
@@ -38,7 +38,7 @@ constexpr auto Bilinear<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search_x;
   auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 40a9239..71f1cf0 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -96,7 +96,7 @@ constexpr auto Polynomial<T>::interpolate_(const Vector<T> &xa,
                                            const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto size = xa.size();
   auto y = work_[size - 1];
@@ -111,7 +111,7 @@ auto Polynomial<T>::derivative_(const Vector<T> &xa, const Vector<T> &ya,
                                 const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto coefficients = taylor(xa, x);
   return coefficients(1);
-- 
2.43.0


From c9f543c1d731ee9705985c7aa19e022203c52b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 22/89] fix: errors of the one-dimensional interpolation
 outside of the series

The nearest index was clamped, so that bounds_error never raised an error, and
the last point of an evenly spaced series, rounded beyond the axis, was
undefined.
---
 src/pyinterp/core/include/pyinterp/interpolate1d.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
index 4939501..71de571 100644
--- a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
+++ b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
@@ -4,6 +4,7 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <algorithm>
+#include <cmath>
 #include <limits>
 #include <string>
 #include <tuple>
@@ -52,11 +53,16 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
   // Allocate the vector storing the result.
   auto result = Vector<double>(xi.size());
 
+  // Range of the axis. The values of the axis are known within rounding errors.
+  const auto x_min = axis->min_value();
+  const auto x_max = axis->max_value();
+  const auto epsilon = 1e-12 * std::max(std::fabs(x_min), std::fabs(x_max));
+
   for (int64_t ix = 0; ix < xi.size(); ++ix) {
     // Nearest index of the current value
     auto index = axis->find_index(xi(ix), true);
 
-    if (index == -1) {
+    if (index == -1 || xi(ix) < x_min - epsilon || xi(ix) > x_max + epsilon) {
       if (bounds_error) {
         throw std::out_of_range("The value is out of the range of the axis");
       } else {
@@ -73,7 +79,8 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
     const Vector<double> yw = y.segment(start, n);
 
     // Interpolation of the current value
-    result(ix) = (*interpolator)(axis->slice(start, n), yw, xi(ix));
+    result(ix) = (*interpolator)(axis->slice(start, n), yw,
+                                 std::min(std::max(xi(ix), x_min), x_max));
   }
   return result;
 }
-- 
2.43.0


From a1dd3e1184818f4125858c14df3ac41593620d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 23/89] fix: fitting windows of one cell at a longitude of the
 grid

The longitude normalised with respect to the window could be rounded out of
the cell which encloses it and yielded an undefined value.
---
 .../core/include/pyinterp/detail/math/frame.hpp      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp b/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
index 6e21154..2fe235b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
@@ -4,6 +4,7 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <Eigen/Core>
+#include <cmath>
 #include <memory>
 #include <utility>
 
@@ -106,7 +107,16 @@ class CoordsXY {
   /// Normalizes the angle with respect to the first value of the X axis of this
   /// array.
   [[nodiscard]] inline auto normalize_angle(const double xi) const -> double {
-    return math::normalize_angle(xi, (*x_)(0), 360.0);
+    const auto angle = math::normalize_angle(xi, (*x_)(0), 360.0);
+
+    // The cell in the middle of the window encloses the angle: rounding errors
+    // must not move it out of this cell.
+    for (auto bound : {(*x_)(nx() - 1), (*x_)(nx())}) {
+      if (std::fabs(std::remainder(angle - bound, 360.0)) < 1e-10) {
+        return bound;
+      }
+    }
+    return angle;
   }
 
  private:
-- 
2.43.0


From 8823a701824e911e892b79276d5693572d9f3587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 24/89] fix: windows extended beyond the ends of an axis by a
 boundary rule

The nodes repeated by the expand, wrap and sym rules kept their own
coordinates, so that the coordinates of the window were not sorted and the
fitting models were undefined or meaningless, even on the first node.
---
 src/pyinterp/core/include/pyinterp/frame.hpp | 73 ++++++++++++++++----
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/frame.hpp b/src/pyinterp/core/include/pyinterp/frame.hpp
index ec7ba04..d5b1e59 100644
--- a/src/pyinterp/core/include/pyinterp/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/frame.hpp
@@ -4,8 +4,10 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <Eigen/Core>
+#include <cmath>
 #include <cstdint>
 #include <string>
+#include <vector>
 
 #include "pyinterp/axis.hpp"
 #include "pyinterp/detail/math/frame.hpp"
@@ -21,6 +23,50 @@ inline auto index_error(const std::string &axis, const std::string &value,
                               " axis");
 }
 
+/// Get the coordinates of the nodes of a window along an axis.
+///
+/// The coordinates of the nodes added by the boundary rule beyond the ends of
+/// the axis go on with the spacing of these nodes, as they must be sorted.
+///
+/// @param axis Axis of the grid
+/// @param indexes Indexes of the nodes of the window
+/// @return the coordinates of the nodes
+inline auto window_coordinates(const Axis<double> &axis,
+                               const std::vector<int64_t> &indexes)
+    -> std::vector<double> {
+  auto result = std::vector<double>(indexes.size());
+  const auto half = static_cast<int64_t>(indexes.size() >> 1U);
+
+  // Sets the nodes of one half of the window, from the middle to its end.
+  auto fill = [&](const int64_t shift, const int64_t first, const int64_t last) {
+    auto step = axis(indexes[half]) - axis(indexes[half - 1]);
+    auto inside = true;
+
+    result[first] = axis(indexes[first]);
+    for (auto ix = first; ix != last; ix += shift) {
+      const auto i0 = indexes[ix];
+      const auto i1 = indexes[ix + shift];
+
+      if (std::abs(i1 - i0) == 1) {
+        step = std::copysign(axis(i1) - axis(i0), step);
+      }
+      inside = inside && i1 == i0 + shift;
+      result[ix + shift] = inside ? axis(i1) : result[ix] + shift * step;
+    }
+  };
+  fill(-1, half - 1, 0);
+  fill(1, half, static_cast<int64_t>(indexes.size()) - 1);
+
+  // The window of a circle goes on beyond its origin.
+  if (axis.is_circle()) {
+    for (size_t ix = 0; ix < indexes.size(); ++ix) {
+      result[ix] = detail::math::normalize_angle(axis(indexes[ix]),
+                                                 axis(indexes[0]), 360.0);
+    }
+  }
+  return result;
+}
+
 /// Loads the interpolation frame into memory
 template <typename DataType>
 auto load_frame(const Grid2D<DataType> &grid, const double x, const double y,
@@ -43,18 +89,17 @@ auto load_frame(const Grid2D<DataType> &grid, const double x, const double y,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
+  const auto xs = window_coordinates(x_axis, x_indexes);
+  const auto ys = window_coordinates(y_axis, y_indexes);
 
   for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
+    frame.y(jx) = ys[jx];
   }
 
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle()
-                      ? detail::math::normalize_angle(x_axis(index), x0, 360.0)
-                      : x_axis(index);
+    frame.x(ix) = xs[ix];
 
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       frame.q(ix, jx) = static_cast<double>(grid.value(index, y_indexes[jx]));
@@ -91,10 +136,11 @@ auto load_frame(const Grid3D<DataType, AxisType> &grid, const double x,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
+  const auto xs = window_coordinates(x_axis, x_indexes);
+  const auto ys = window_coordinates(y_axis, y_indexes);
 
   for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
+    frame.y(jx) = ys[jx];
   }
 
   for (Eigen::Index kx = 0; kx < frame.z().size(); ++kx) {
@@ -104,9 +150,7 @@ auto load_frame(const Grid3D<DataType, AxisType> &grid, const double x,
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto x_index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle() ? detail::math::normalize_angle(
-                                          x_axis(x_index), x0, 360.0)
-                                    : x_axis(x_index);
+    frame.x(ix) = xs[ix];
 
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       const auto y_index = y_indexes[jx];
@@ -154,10 +198,11 @@ auto load_frame(const Grid4D<DataType, AxisType> &grid, const double x,
     return false;
   }
 
-  auto x0 = x_axis(x_indexes[0]);
+  const auto xs = window_coordinates(x_axis, x_indexes);
+  const auto ys = window_coordinates(y_axis, y_indexes);
 
   for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
+    frame.y(jx) = ys[jx];
   }
 
   for (Eigen::Index kx = 0; kx < frame.z().size(); ++kx) {
@@ -171,9 +216,7 @@ auto load_frame(const Grid4D<DataType, AxisType> &grid, const double x,
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto x_index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle() ? detail::math::normalize_angle(
-                                          x_axis(x_index), x0, 360.0)
-                                    : x_axis(x_index);
+    frame.x(ix) = xs[ix];
 
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       const auto y_index = y_indexes[jx];
-- 
2.43.0


From 29e35e45ef31a10f96bececc10f0a7dd5968cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 25/89] fix: symmetrical windows larger than the axis

The node mirrored beyond the other end of the axis was read out of bounds
(index -1) at the end of the axis, and was not the mirror image at its start.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 803d3d9..3101292 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -428,7 +428,7 @@ class Axis {
               before = math::remainder(len + before, len);
               break;
             case ::pyinterp::axis::kSym:
-              before = math::remainder(-before, len);
+              before = mirror_index(before, len);
               break;
             default:
               return {};
@@ -448,7 +448,7 @@ class Axis {
               after = math::remainder(after, len);
               break;
             case ::pyinterp::axis::kSym:
-              after = len - 2 - math::remainder(after - len, len);
+              after = mirror_index(after, len);
               break;
             default:
               return {};
@@ -505,6 +505,16 @@ class Axis {
   std::unique_ptr<axis::container::Abstract<T>> axis_{
       std::make_unique<axis::container::Undefined<T>>()};
 
+  /// Get the index of the node which is the mirror image of a node located
+  /// beyond the ends of the axis. The image of a node located farther than the
+  /// other end is reflected again.
+  [[nodiscard]] static constexpr auto mirror_index(const int64_t index,
+                                                   const int64_t len)
+      -> int64_t {
+    const auto result = math::remainder(index, 2 * (len - 1));
+    return result < len ? result : 2 * (len - 1) - result;
+  }
+
   /// Clone the axis container
   [[nodiscard]] inline auto clone() const
       -> std::unique_ptr<axis::container::Abstract<T>> {
-- 
2.43.0


From 6763cf8a68deecc04e37ff43a4d88caf3a96c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 26/89] fix: filling a matrix keeps the value alone on its row

The defined value of a row which holds only one of them was marked as undefined
and replaced by the values interpolated along its column.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index b65261c..9be2ddc 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -238,9 +238,9 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
     }
   }
 
-  // If there are no valid points, then we can't interpolate anything.
+  // If there are less than two valid points, then we can't interpolate
+  // anything.
   if (last_valid == first_valid) {
-    is_undefined.setOnes();
     return;
   }
 
-- 
2.43.0


From c92b23ac9ccf0eca552d1cf96ad8458746c54334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 27/89] fix: filling the gaps of vectors of integers and dates

The slope of the gaps was truncated to an integer: a gap could be filled with a
constant, and dates jumped at the end of the gap.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 33 ++++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 9be2ddc..5d84a3c 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -15,6 +15,7 @@
 #include <limits>
 #include <string>
 #include <tuple>
+#include <type_traits>
 #include <vector>
 
 #include "pyinterp/detail/math.hpp"
@@ -198,6 +199,24 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   return std::max(calculate(0), calculate(1));
 }
 
+/// Get the value at the position "ix" of the line whose value increases by
+/// "dx" every "di" positions.
+///
+/// @param dx Increment of the line.
+/// @param di Number of positions.
+/// @param ix Position on the line.
+/// @return The increment at the position ix.
+template <typename T>
+constexpr auto line_increment(const T &dx, const Eigen::Index di,
+                              const Eigen::Index ix) -> T {
+  if constexpr (std::is_integral_v<T>) {
+    // The remainder of the division of integers must not be lost.
+    return (dx / di) * ix + ((dx % di) * ix) / di;
+  } else {
+    return (dx / di) * ix;
+  }
+}
+
 /// Fills in the gaps between defined values in a line with interpolated
 /// values.
 ///
@@ -223,10 +242,9 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
         x0 = x[last_valid];
         x1 = x[ix];
         di = ix - last_valid;
-        dx = (x1 - x0) / di;
+        dx = x1 - x0;
         for (Eigen::Index jx = last_valid + 1; jx < ix; ++jx) {
-          di = jx - last_valid;
-          x[jx] = dx * di + x0;
+          x[jx] = line_increment(dx, di, jx - last_valid) + x0;
         }
       } else if (first_valid == -1) {
         // If this is the first valid point, then we can't interpolate the
@@ -247,22 +265,21 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
   // If the last valid point is not the last point, then we can't interpolate
   x0 = x[first_valid];
   x1 = x[last_valid];
-  dx = (x1 - x0) / (last_valid - first_valid);
+  dx = x1 - x0;
+  di = last_valid - first_valid;
 
   // If there is a gap between the last valid point and the end of the line,
   // then interpolate the gap.
   if (last_valid < (size - 1)) {
     for (Eigen::Index jx = last_valid + 1; jx < size; ++jx) {
-      di = jx - last_valid;
-      x[jx] = dx * di + x1;
+      x[jx] = line_increment(dx, di, jx - last_valid) + x1;
     }
   }
   // If there is a gap between the first valid point and the beginning of the
   // line, then interpolate the gap.
   if (first_valid > 0) {
     for (Eigen::Index jx = 0; jx < first_valid; ++jx) {
-      di = first_valid - jx;
-      x[jx] = x0 - dx * di;
+      x[jx] = x0 - line_increment(dx, di, first_valid - jx);
     }
   }
   // Mark all points as defined.
-- 
2.43.0


From 552b9747d3d8a145c86edb001fde7a6f2e173616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 28/89] fix: filling matrices of single precision numbers

The matrices were filled, then refused by the double precision function.
---
 src/pyinterp/fill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 2c250dd..da89477 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -164,7 +164,8 @@ def matrix(x: NDArray,
         x = numpy.copy(x)
     if dtype == numpy.float32:
         core.fill.matrix_float32(x, fill_value)
-    core.fill.matrix_float64(x, fill_value)
+    else:
+        core.fill.matrix_float64(x, fill_value)
     return x
 
 
-- 
2.43.0


From 20d40fe57ee75ac535061400da7ca31d84b3aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 29/89] fix: fill value of another resolution in vectors of
 dates

The fill value was read as a number in the resolution of the vector, so that
the undefined dates were not found.
---
 src/pyinterp/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index da89477..29c04b6 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -198,7 +198,7 @@ def vector(x: NDArray,
     elif numpy.issubdtype(dtype, numpy.datetime64) or numpy.issubdtype(
             dtype, numpy.timedelta64):
         core.fill.vector_int64(x.view(numpy.int64),
-                               fill_value.view(numpy.int64))
+                               fill_value.astype(dtype).view(numpy.int64))
     else:
         raise ValueError(f'unsupported data type {dtype}')
     return x
-- 
2.43.0


From afe2cba0eb8d0a35b569d24f3340c40971116f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 30/89] fix: relaxation of grids of one row or one column

The neighbors of the cells were read out of bounds.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 5d84a3c..fb1793b 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -95,6 +95,11 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   auto x_size = grid.rows();
   auto y_size = grid.cols();
 
+  // Index of the neighbor of the first cell of an axis. The only cell of an
+  // axis is its own neighbor.
+  const auto x_second = std::min<Eigen::Index>(1, x_size - 1);
+  const auto y_second = std::min<Eigen::Index>(1, y_size - 1);
+
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
   auto except = std::exception_ptr(nullptr);
@@ -134,13 +139,14 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
 
     try {
       for (auto ix = 0; ix < x_size; ++ix) {
-        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : 1) : ix - 1;
-        auto ix1 = ix == x_size - 1 ? (is_circle ? 0 : x_size - 2) : ix + 1;
+        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : x_second) : ix - 1;
+        auto ix1 =
+            ix == x_size - 1 ? (is_circle ? 0 : x_size - 1 - x_second) : ix + 1;
 
         for (auto iy = y_start; iy < y_end; ++iy) {
           if (mask(ix, iy) && ((ix + iy) % 2) == red_black) {
-            auto iy0 = iy == 0 ? 1 : iy - 1;
-            auto iy1 = iy == y_size - 1 ? y_size - 2 : iy + 1;
+            auto iy0 = iy == 0 ? y_second : iy - 1;
+            auto iy1 = iy == y_size - 1 ? y_size - 1 - y_second : iy + 1;
 
             cell_fill(ix0, ix, ix1, iy0, iy, iy1);
           }
-- 
2.43.0


From 2850becadb3caaf87c09565b0e937f6d4e76c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 31/89] fix: loess filter of grids with an axis of one node

The mirrored indexes were divided by zero, which killed the process.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index fb1793b..fcd259d 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -380,7 +380,9 @@ inline auto frame_index(const int64_t index, const int64_t size,
     } else {
       // Otherwise, the symmetrical indexes are used if the indexes are outside
       // the domain definition.
-      if (idx < 0 || idx >= size) {
+      if (size == 1) {
+        idx = 0;
+      } else if (idx < 0 || idx >= size) {
         auto where = detail::math::remainder(idx, (size - 1) * 2);
         if (where >= size) {
           idx = size - 2 - detail::math::remainder(where, size);
-- 
2.43.0


From 29718ac26e35fa658fc42b4bd462c7916bca106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 32/89] fix: loess filter of grids with decreasing longitudes

The distances to the first node of the window of the filter were measured on
the other side of the circle.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 45 +++++----------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index fcd259d..58a1e17 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -459,15 +459,6 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
         // We retrieve the indexes framing the current value.
         frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-        // Read the first value of the calculated window.
-        const auto x0 = x_axis(x_frame[0]);
-
-        // The current value is normalized to the first value in the
-        // window.
-        if (x_axis.is_angle()) {
-          x = detail::math::normalize_angle(x, x0, 360.0);
-        }
-
         for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
           auto z = grid.value(ix, iy);
 
@@ -489,9 +480,9 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
             for (auto wx : x_frame) {
               auto xi = x_axis(wx);
 
-              // We normalize the window's coordinates to its first value.
+              // We normalize the window's coordinates to the nearest turn.
               if (x_axis.is_angle()) {
-                xi = detail::math::normalize_angle(xi, x0, 360.0);
+                xi = x + std::remainder(xi - x, 360.0);
               }
 
               for (auto wy : y_frame) {
@@ -537,8 +528,8 @@ template <typename Type, typename GridType, typename... Index>
 auto loess_(const GridType &grid, const uint32_t nx, const uint32_t ny,
             const ValueType value_type, const Axis<double> &x_axis,
             const Axis<double> &y_axis, const std::vector<int64_t> &x_frame,
-            std::vector<int64_t> &y_frame, const double x0, const double x,
-            const int64_t ix, const int64_t iy, Index &&...index) -> Type {
+            std::vector<int64_t> &y_frame, const double x, const int64_t ix,
+            const int64_t iy, Index &&...index) -> Type {
   auto z = grid.value(ix, iy, index...);
 
   // If the current value is masked.
@@ -559,9 +550,9 @@ auto loess_(const GridType &grid, const uint32_t nx, const uint32_t ny,
     for (auto wx : x_frame) {
       auto xi = x_axis(wx);
 
-      // We normalize the window's coordinates to its first value.
+      // We normalize the window's coordinates to the nearest turn.
       if (x_axis.is_angle()) {
-        xi = detail::math::normalize_angle(xi, x0, 360.0);
+        xi = x + std::remainder(xi - x, 360.0);
       }
 
       for (auto wy : y_frame) {
@@ -616,19 +607,10 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
           // We retrieve the indexes framing the current value.
           frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-          // Read the first value of the calculated window.
-          const auto x0 = x_axis(x_frame[0]);
-
-          // The current value is normalized to the first value in the
-          // window.
-          if (x_axis.is_angle()) {
-            x = detail::math::normalize_angle(x, x0, 360.0);
-          }
-
           for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
             _result(ix, iy, iz) = loess_<Type, Grid3D<Type, AxisType>>(
-                grid, nx, ny, value_type, x_axis, y_axis, x_frame, y_frame, x0,
-                x, ix, iy, iz);
+                grid, nx, ny, value_type, x_axis, y_axis, x_frame, y_frame, x,
+                ix, iy, iz);
           }
         }
       }
@@ -673,20 +655,11 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
           // We retrieve the indexes framing the current value.
           frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-          // Read the first value of the calculated window.
-          const auto x0 = x_axis(x_frame[0]);
-
-          // The current value is normalized to the first value in the
-          // window.
-          if (x_axis.is_angle()) {
-            x = detail::math::normalize_angle(x, x0, 360.0);
-          }
-
           for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
             for (int64_t iz = 0; iz < z_axis.size(); ++iz) {
               _result(ix, iy, iz, iu) = loess_<Type, Grid4D<Type, AxisType>>(
                   grid, nx, ny, value_type, x_axis, y_axis, x_frame, y_frame,
-                  x0, x, ix, iy, iz, iu);
+                  x, ix, iy, iz, iu);
             }
           }
         }
-- 
2.43.0


From 84da6ddd5bda7dc13ffa4809d5c9895eedeec100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 33/89] fix: merging of statistics without samples

---
 .../detail/math/descriptive_statistics.hpp        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
index e0ac125..4d966d3 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
@@ -51,7 +51,7 @@ class DescriptiveStatistics {
   constexpr auto operator()(const T &value) noexcept -> void {
     const auto r = acc_.sum_of_weights;
 
-    if (r == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, 1));
     } else {
       acc_.sum_of_weights += 1;
@@ -84,7 +84,7 @@ class DescriptiveStatistics {
 
   /// push a new value into the accumulator associated with a weight
   constexpr auto operator()(const T &value, const T &weight) noexcept -> void {
-    if (acc_.sum_of_weights == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, weight));
     } else {
       this->operator+=(DescriptiveStatistics(value, weight));
@@ -152,6 +152,15 @@ class DescriptiveStatistics {
   /// Combines two accumulators.
   constexpr auto operator+=(const DescriptiveStatistics &rhs) noexcept
       -> DescriptiveStatistics & {
+    // An accumulator without samples has nothing to contribute.
+    if (rhs.acc_.count == 0) {
+      return *this;
+    }
+    if (acc_.count == 0) {
+      acc_ = rhs.acc_;
+      return *this;
+    }
+
     auto w = acc_.sum_of_weights + rhs.acc_.sum_of_weights;
 
     if (rhs.acc_.min < acc_.min) {
@@ -163,7 +172,7 @@ class DescriptiveStatistics {
     }
 
     const auto delta = rhs.acc_.mean - acc_.mean;
-    const auto delta_w = delta / w;
+    const auto delta_w = w == 0 ? T(0) : T(delta / w);
     const auto delta2_w2 = delta_w * delta_w;
 
     const auto w2 = acc_.sum_of_weights * acc_.sum_of_weights;
-- 
2.43.0


From ddcec88995bc876cf367459bff27eeb2fafcae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 34/89] fix: statistics of arrays with dimensions added by
 newaxis

---
 src/pyinterp/core/include/pyinterp/detail/numpy.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
index 3ac5482..b02cefd 100644
--- a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
@@ -5,6 +5,7 @@
 #pragma once
 #include <pybind11/numpy.h>
 
+#include <algorithm>
 #include <list>
 #include <tuple>
 #include <vector>
@@ -19,6 +20,9 @@ void check_axis_bounds(
     const pybind11::array_t<T, pybind11::array::c_style> &arr,
     const std::list<pybind11::ssize_t> &axis) {
   auto ndim = arr.ndim();
+  if (axis.empty()) {
+    return;
+  }
   auto [min, max] = std::minmax_element(axis.begin(), axis.end());
   if (*min < 0) {
     throw std::invalid_argument("axis " + std::to_string(*min) +
@@ -63,10 +67,17 @@ template <typename T>
   // Preserved strides of the processed tensor.
   auto adjusted_strides = Vector<pybind11::ssize_t>(ndim);
 
+  // Strides of the tensor, in number of elements. They're calculated from the
+  // shape because numpy is free to set any stride for dimensions of size 1.
+  auto stride = static_cast<pybind11::ssize_t>(1);
+  for (auto ix = ndim - 1; ix >= 0; --ix) {
+    strides[ix] = stride;
+    stride *= std::max(arr.shape(ix), static_cast<pybind11::ssize_t>(1));
+  }
+
   // Calculation of the shape of the reduced tensor.
   for (pybind11::ssize_t ix = 0; ix < arr.ndim(); ++ix) {
     auto dim = arr.shape(ix);
-    strides[ix] = arr.strides(ix) / sizeof(T);
 
     // We keep this dimension?
     if (std::find(axes.begin(), axes.end(), ix) == axes.end()) {
-- 
2.43.0


From df81923a7d10063dd6d4413050281351c622f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 35/89] fix: maximum of streaming histograms of negative values

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 481e3ec..a48ee22 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -258,7 +258,7 @@ class StreamingHistogram {
   size_t bin_count_{100};
   uint64_t count_{0};
   T min_{std::numeric_limits<T>::max()};
-  T max_{std::numeric_limits<T>::min()};
+  T max_{std::numeric_limits<T>::lowest()};
   std::vector<Bin<T>> bins_{};
 
   /// Update the histogram with the provided value.
-- 
2.43.0


From 3afe65cacc7d3457c705a2511914631d30039904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 36/89] fix: merging of a streaming histogram with itself

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index a48ee22..0bb74c1 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -162,6 +162,11 @@ class StreamingHistogram {
 
   /// Merges the provided histogram into the current one.
   inline auto operator+=(const StreamingHistogram<T> &other) -> void {
+    if (this == &other) {
+      // The bins cannot be browsed while they are being updated.
+      *this += StreamingHistogram<T>(other);
+      return;
+    }
     count_ += other.count_;
     if (other.min_ < min_) {
       min_ = other.min_;
-- 
2.43.0


From b1998bca40c4687524415bff73c9d6574687d757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 37/89] fix: compression of streaming histograms out of bounds

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 0bb74c1..6e60591 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -61,7 +61,7 @@ class BinDifferences {
 
  private:
   std::function<T(const Bin<T> &, const Bin<T> &)> calculate_;
-  size_t index_{std::numeric_limits<size_t>::max()};
+  size_t index_{0};
   T diff_{std::numeric_limits<T>::max()};
 
   /// Simple difference calculation.
@@ -302,6 +302,11 @@ class StreamingHistogram {
 
   /// Compress the histogram if necessary.
   auto trim() -> void {
+    // A histogram without bins doesn't store any value.
+    if (bin_count_ == 0) {
+      bins_.clear();
+      return;
+    }
     while (bins_.size() > bin_count_) {
       // Find a point qi that minimizes qi+1 - qi
       auto ix = BinDifferences<T>(bins_, weighted_diff_).index();
-- 
2.43.0


From 891b037e13422f51cd607453badf5e13d9044829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 38/89] fix: quantiles of streaming histograms out of bounds

---
 .../pyinterp/detail/math/streaming_histogram.hpp   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 6e60591..3de69a2 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -201,7 +201,7 @@ class StreamingHistogram {
       return std::numeric_limits<T>::quiet_NaN();
     }
 
-    if (quantile < 0.0 || quantile > 1.0) {
+    if (!(quantile >= 0.0 && quantile <= 1.0)) {
       throw std::invalid_argument("Quantile must be in the range [0, 1]");
     }
 
@@ -210,19 +210,23 @@ class StreamingHistogram {
 
     if (qw <= (bins_.front().weight * 0.5)) {  // left values
       auto ratio = qw / (bins_.front().weight * 0.5);
-      return min_ + (ratio * (bins_.front().value - min_));
+      // min_ is weighted: it may be greater than the values stored.
+      auto lower = std::min(min_, bins_.front().value);
+      return lower + (ratio * (bins_.front().value - lower));
     }
 
     if (qw >= (weights - (bins_.back().weight * 0.5))) {  // right values
       auto base = qw - (weights - (bins_.back().weight * 0.5));
       auto ratio = base / (bins_.back().weight * 0.5);
-      return bins_.back().value + (ratio * (max_ - bins_.back().value));
+      // max_ is weighted: it may be less than the values stored.
+      auto upper = std::max(max_, bins_.back().value);
+      return bins_.back().value + (ratio * (upper - bins_.back().value));
     }
 
     auto ix = static_cast<size_t>(0);
     auto mb = qw - bins_.front().weight * 0.5;
-    while (mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0 &&
-           ix < bins_.size() - 1) {
+    while (ix + 2 < bins_.size() &&
+           mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0) {
       mb -= (bins_[ix].weight + bins_[ix + 1].weight) * 0.5;
       ix += 1;
     }
-- 
2.43.0


From 07b8688ea1984ca798a8ec014577a166c48ad9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 39/89] fix: adding statistics modified the left operand

---
 src/pyinterp/binning.py                            | 2 ++
 src/pyinterp/core/module/binning.cpp               | 7 +++++++
 src/pyinterp/histogram2d.py                        | 1 +
 src/pyinterp/statistics/descriptive_descriptive.py | 3 +--
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index cf976c9..2cf11aa 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -93,6 +93,7 @@ class Binning2D:
     def __add__(self, other: Binning2D) -> Binning2D:
         """Overrides the default behavior of the ``+`` operator."""
         result = copy.copy(self)
+        result._instance = copy.copy(self._instance)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning2D instance must be of the same type')
         result._instance += other._instance  # type: ignore[operator]
@@ -284,6 +285,7 @@ class Binning1D:
     def __add__(self, other: Binning1D) -> Binning1D:
         """Overrides the default behavior of the ``+`` operator."""
         result = copy.copy(self)
+        result._instance = copy.copy(self._instance)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning1D instance must be of the same type')
         result._instance += other._instance  # type: ignore[operator]
diff --git a/src/pyinterp/core/module/binning.cpp b/src/pyinterp/core/module/binning.cpp
index 80cc4e9..4fafbee 100644
--- a/src/pyinterp/core/module/binning.cpp
+++ b/src/pyinterp/core/module/binning.cpp
@@ -194,6 +194,13 @@ Gets the range of the binning.
 Returns:
     Range of the binning.
 )__doc__")
+      .def(
+          "__copy__",
+          [](const pyinterp::Binning1D<Type> &self) {
+            return pyinterp::Binning1D<Type>(self);
+          },
+          "Implements the shallow copy operation.",
+          py::call_guard<py::gil_scoped_release>())
       .def(py::pickle(
           [](const pyinterp::Binning1D<Type> &self) { return self.getstate(); },
           [](const py::tuple &state) {
diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index f03c957..ee792a3 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -106,6 +106,7 @@ class Histogram2D:
         if self.dtype != other.dtype:
             raise ValueError('dtype mismatch')
         result = copy.copy(self)
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index 9c47d6d..bfdf3e1 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -16,7 +16,6 @@ if sys.version_info[:2] > (3, 10):
     from typing import Self
 else:
     Self = 'DescriptiveStatistics'
-import copy
 
 import dask.array.core
 import numpy
@@ -146,7 +145,7 @@ class DescriptiveStatistics:
             if type(self._instance) != type(other._instance):  # noqa: E721
                 raise TypeError(
                     'Descriptive statistics must have the same type')
-            result = copy.copy(self)
+            result = self.copy()
             result += other
             return result
         raise TypeError('unsupported operand type(s) for +='
-- 
2.43.0


From b6f12bb746fd969e895cc992babb58904d786b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 40/89] fix: pickling of geographic binning grids

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index 07d08df..65df889 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -191,7 +191,7 @@ class Binning2D {
     auto wgs = std::optional<geodetic::Spheroid>();
     auto wgs_state = state[2].cast<pybind11::tuple>();
     if (!wgs_state.empty()) {
-      *wgs = geodetic::Spheroid::setstate(wgs_state);
+      wgs = geodetic::Spheroid::setstate(wgs_state);
     }
 
     // Unmarshalling computed statistics
-- 
2.43.0


From d4317bc578e629250137361f5fe04d6dfdf98dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 41/89] fix: check the shape of the samples of the 1-D binning

---
 src/pyinterp/binning.py                        | 2 ++
 src/pyinterp/core/include/pyinterp/binning.hpp | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index 2cf11aa..9156718 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -308,6 +308,8 @@ class Binning1D:
         """
         x = numpy.asarray(x).ravel()
         z = numpy.asarray(z).ravel()
+        if weights is not None:
+            weights = numpy.asarray(weights).ravel()
         self._instance.push(x, z, weights)
 
     def push_delayed(
diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index 65df889..f0749fd 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -382,6 +382,13 @@ class Binning1D : public Binning2D<T> {
   /// @param z values of the points.
   void push(const pybind11::array_t<T> &x, const pybind11::array_t<T> &z,
             const std::optional<pybind11::array_t<T>> &weights = std::nullopt) {
+    detail::check_array_ndim("x", 1, x, "z", 1, z);
+    detail::check_ndarray_shape("x", x, "z", z);
+    if (weights.has_value()) {
+      detail::check_array_ndim("weights", 1, *weights);
+      detail::check_ndarray_shape("x", x, "weights", *weights);
+    }
+
     auto _x = x.template unchecked<1>();
     auto _z = z.template unchecked<1>();
     auto _weights = weights.has_value()
-- 
2.43.0


From 013bece60314c8ccb9bd80efe9cad7d120c1f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 42/89] fix: merging histograms keeps the number of bins of the
 left operand

---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index 352b9c7..b59380f 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -205,17 +205,7 @@ class Histogram2D {
     }
     for (Eigen::Index ix = 0; ix < histogram_.rows(); ++ix) {
       for (Eigen::Index iy = 0; iy < histogram_.cols(); ++iy) {
-        auto &lhs = histogram_(ix, iy);
-        auto &rhs = other.histogram_(ix, iy);
-
-        // Statistics are defined only in the other instance.
-        if (lhs.size() == 0 && rhs.size() != 0) {
-          lhs = rhs;
-          // If the statistics are defined in both instances they can be
-          // combined.
-        } else if (lhs.size() != 0 && rhs.size() != 0) {
-          lhs += rhs;
-        }
+        histogram_(ix, iy) += other.histogram_(ix, iy);
       }
     }
     return *this;
-- 
2.43.0


From 0f3e43e1777330664e8ee50f1c7f3952c8bfcbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 43/89] fix: restore the samples of a pickled RTree

pybind11 ignores the __setstate__ of an instance already initialized: the
unpickled index was empty.
---
 src/pyinterp/rtree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/rtree.py b/src/pyinterp/rtree.py
index e22143c..96e0f9e 100644
--- a/src/pyinterp/rtree.py
+++ b/src/pyinterp/rtree.py
@@ -488,5 +488,7 @@ class RTree:
             raise ValueError('invalid state')
         _class = RTree(None, state[0])
         self.dtype = _class.dtype
-        _class._instance.__setstate__(state[1])
-        self._instance = _class._instance
+        # The state of an initialized instance cannot be replaced.
+        core_class = type(_class._instance)
+        self._instance = core_class.__new__(core_class)
+        self._instance.__setstate__(state[1])
-- 
2.43.0


From 7ad4b6763ed4e71a9425007a0dd54038be6b1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 44/89] fix: unpickle an RTree that handles ECEF coordinates

Its constructor refuses a spheroid with Cartesian coordinates.
---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index e3ccb5e..59b7133 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -397,7 +397,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       }
       vector.emplace_back(std::make_pair(point, _u(ix)));
     }
-    auto result = RTree<Point, Type>(spheroid, ecef);
+    auto result = RTree<Point, Type>(
+        ecef ? std::optional<detail::geodetic::Spheroid>() : spheroid, ecef);
     static_cast<base_t>(result).packing(vector);
     return result;
   }
-- 
2.43.0


From 1644f05afeef86ad525cd0d1c7c07702a0acb8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 45/89] fix: accept the cauchy and whittle_matern covariance
 functions

They are documented, but the first one was refused and the name of the second
one is not that of the enumeration.
---
 src/pyinterp/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index 9ace82b..ea9d672 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -98,6 +98,7 @@ def _core_covariance_function(
     """Get the covariance function."""
     covariance = covariance or 'matern_32'
     if covariance not in [
+            'cauchy',
             'exponential',
             'gaussian',
             'linear',
@@ -108,6 +109,8 @@ def _core_covariance_function(
             'whittle_matern',
     ]:
         raise ValueError(f'Covariance function {covariance!r} is not defined')
+    if covariance == 'whittle_matern':
+        return core.CovarianceFunction.WhittleMatern
     covariance = '_'.join(item.capitalize() for item in covariance.split('_'))
     return getattr(core.CovarianceFunction, covariance)
 
-- 
2.43.0


From 06bdda0a590644588511c35668c80e828e10fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 46/89] fix: upper bounds of an RTree whose coordinates are
 negative

numeric_limits::min() is the smallest positive value.
---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 59b7133..572fffa 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -104,11 +104,11 @@ class RTree : public detail::geometry::RTree<Point, Type> {
     }
 
     auto x0 = std::numeric_limits<coordinate_t>::max();
-    auto x1 = std::numeric_limits<coordinate_t>::min();
+    auto x1 = std::numeric_limits<coordinate_t>::lowest();
     auto y0 = std::numeric_limits<coordinate_t>::max();
-    auto y1 = std::numeric_limits<coordinate_t>::min();
+    auto y1 = std::numeric_limits<coordinate_t>::lowest();
     auto z0 = std::numeric_limits<coordinate_t>::max();
-    auto z1 = std::numeric_limits<coordinate_t>::min();
+    auto z1 = std::numeric_limits<coordinate_t>::lowest();
 
     std::for_each(this->tree_->begin(), this->tree_->end(),
                   [&](const auto &item) {
-- 
2.43.0


From 75f8ac9779a28b653611e7135cde0a125877f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 47/89] fix: use the altitude of the points estimated by
 kriging

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 572fffa..9f0317f 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -336,7 +336,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       case dimension_t::value:
         return _universal_kriging<dimension_t::value>(
             ecef_ ? &RTree<Point, Type>::from_xyz
-                  : &RTree<Point, Type>::from_lon_lat,
+                  : &RTree<Point, Type>::from_lon_lat_alt,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, cov,
             sigma, lambda, within, num_threads);
-- 
2.43.0


From c535da8f294cee79f3109b6ce8a887a1c69a4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 48/89] fix: default argument of the Lanczos window

Its documented default is 1; 0 gave a null weight to all the neighbours.
---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 10 ++++++++--
 src/pyinterp/core/lib/geodetic/rtree.cpp     |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 9f0317f..c03fd5a 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -304,14 +304,14 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                   : &RTree<Point, Type>::from_lon_lat,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, wf,
-            arg.value_or(0), within, num_threads);
+            arg.value_or(default_argument(wf)), within, num_threads);
       case dimension_t::value:
         return _window_function<dimension_t::value>(
             ecef_ ? &RTree<Point, Type>::from_xyz
                   : &RTree<Point, Type>::from_lon_lat_alt,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, wf,
-            arg.value_or(0), within, num_threads);
+            arg.value_or(default_argument(wf)), within, num_threads);
       default:
         throw std::invalid_argument(RTree<Point, Type>::invalid_shape());
     }
@@ -456,6 +456,12 @@ class RTree : public detail::geometry::RTree<Point, Type> {
         boost::geometry::get<2>(point)));
   }
 
+  /// Default value of the optional argument of the window functions.
+  static constexpr auto default_argument(const WindowFunction wf)
+      -> coordinate_t {
+    return wf == WindowFunction::kLanczos ? 1 : 0;
+  }
+
   /// Raise an exception if the size of the matrix does not conform to the
   /// number of coordinates handled by this instance.
   static auto invalid_shape() -> std::string {
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 426dfb6..2677584 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -258,7 +258,8 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
                             const std::optional<double> &arg, bool within,
                             const size_t num_threads) const -> pybind11::tuple {
   detail::check_container_size("lon", lon, "lat", lat);
-  auto _arg = arg.value_or(0);
+  auto _arg =
+      arg.value_or(wf == detail::math::window::Function::kLanczos ? 1 : 0);
   auto size = lon.size();
 
   // Allocation of result vectors.
-- 
2.43.0


From 985c08f6182c017c6c1fcf5aa220f84d8a2fdfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 49/89] fix: linear covariance function

It grew with the distance instead of decreasing as documented; with a null
variance the kriging system could not be solved.
---
 src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp b/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
index 508738f..8c5685e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp
@@ -119,7 +119,10 @@ inline auto linear_covariance(const Eigen::Ref<const Eigen::Vector3<T>>& p1,
                               const Eigen::Ref<const Eigen::Vector3<T>>& p2,
                               const T& sigma, const T& lambda) -> T {
   auto r = (p1 - p2).norm();
-  return math::sqr(sigma) * r;
+  if (r > lambda) {
+    return 0;
+  }
+  return math::sqr(sigma) * (1 - r / lambda);
 }
 
 /// Known Covariance functions.
-- 
2.43.0


From 9381f56f7c71dd53cb1dcef856d6a938e54ce365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 50/89] fix: default radius of the window functions of the
 geodetic RTree

None was announced as the default value of a mandatory number.
---
 src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp | 3 ++-
 src/pyinterp/core/lib/geodetic/rtree.cpp              | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp b/src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp
index 3c91212..1897365 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/rtree.hpp
@@ -87,7 +87,8 @@ class RTree : public detail::geometry::RTree<
 
   [[nodiscard]] auto window_function(
       const Eigen::Ref<const Vector<double>> &lon,
-      const Eigen::Ref<const Vector<double>> &lat, double radius, uint32_t k,
+      const Eigen::Ref<const Vector<double>> &lat,
+      const std::optional<double> &radius, uint32_t k,
       detail::math::window::Function wf, const std::optional<double> &arg,
       bool within, size_t num_threads) const -> pybind11::tuple;
 
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 2677584..782f91f 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -253,11 +253,13 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
 
 auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
                             const Eigen::Ref<const Vector<double>> &lat,
-                            const double radius, const uint32_t k,
+                            const std::optional<double> &radius,
+                            const uint32_t k,
                             const detail::math::window::Function wf,
                             const std::optional<double> &arg, bool within,
                             const size_t num_threads) const -> pybind11::tuple {
   detail::check_container_size("lon", lon, "lat", lat);
+  auto _radius = radius.value_or(std::numeric_limits<double>::max());
   auto _arg =
       arg.value_or(wf == detail::math::window::Function::kLanczos ? 1 : 0);
   auto size = lon.size();
@@ -286,7 +288,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
               auto result = base_t::window_function(
                   point_t(detail::math::normalize_angle(lon(ix), -180.0, 360.0),
                           lat(ix)),
-                  strategy_, wf_handler, _arg, radius, k, within);
+                  strategy_, wf_handler, _arg, _radius, k, within);
               _data(ix) = result.first;
               _neighbors(ix) = result.second;
             }
-- 
2.43.0


From 940fc0e21f7f9e835a2bb3dc5ee98662298764cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 51/89] fix: keep the flattening of a pickled geodetic RTree

The state stored the equatorial radius twice, a restored index measured its
distances on a sphere.
---
 src/pyinterp/core/lib/geodetic/rtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 782f91f..4e1d2ca 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -322,7 +322,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
                 });
   const auto &model = strategy_.model();
   auto a = model.template get_radius<0>();
-  auto b = model.template get_radius<1>();
+  auto b = model.template get_radius<2>();
   return pybind11::make_tuple(a, b, coordinates, data);
 }
 
-- 
2.43.0


From 514eb1e371ca2b7a0b29401f31f156c8efd04c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 52/89] fix: authalic radius of a sphere

The expression divides by the linear eccentricity, which is zero: the result
was NaN instead of the radius of the sphere.
---
 .../core/include/pyinterp/detail/geodetic/spheroid.hpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp b/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
index a55c415..9663e2d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
@@ -140,6 +140,10 @@ class Spheroid {
   ///
   /// @return \f$R_2=\sqrt{\frac{a^2+\frac{ab^2}{E}ln(\frac{a + E}{b})}{2}}\f$
   [[nodiscard]] inline auto authalic_radius() const noexcept -> double {
+    if (linear_eccentricity() == 0) {
+      // The general expression is undefined for a sphere.
+      return semi_major_axis_;
+    }
     return std::sqrt((math::sqr(semi_major_axis_) +
                       ((semi_major_axis_ * math::sqr(semi_minor_axis())) /
                        linear_eccentricity()) *
-- 
2.43.0


From c2204d2a0b0dade97c61035b1294bda5d3a43c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 53/89] fix: check the sizes of the coordinates given to
 LineString.closest_point

The shorter vector was read and written out of its bounds.
---
 src/pyinterp/core/lib/geodetic/line_string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index aea2532..446baa6 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -222,6 +222,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
                                const std::optional<Spheroid>& wgs,
                                const size_t num_threads) const
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
+  detail::check_eigen_shape("lon", lon, "lat", lat);
   auto result_lon = Eigen::VectorXd(lon.size());
   auto result_lat = Eigen::VectorXd(lat.size());
   auto except = std::exception_ptr(nullptr);
-- 
2.43.0


From e950c8642e7dace42d7604c7e54fe9a04b15cf0f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 54/89] fix: keep a line string alive while it is iterated over

The keep_alive policy was given to the iterator's __next__ rather than to
__iter__, so that iterating over a temporary (the outline of a polygon, for
example) read freed memory.
---
 src/pyinterp/core/module/geodetic.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index d0b6e36..6d3c3b0 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -1131,11 +1131,12 @@ Args:
       .def("__repr__", &geodetic::LineString::to_string,
            "Called by the ``repr()`` built-in function to compute the string "
            "representation of a point.")
-      .def("__iter__",
-           [](const geodetic::LineString &self) {
-             return py::make_iterator(self.begin(), self.end(),
-                                      py::keep_alive<0, 1>());
-           })
+      .def(
+          "__iter__",
+          [](const geodetic::LineString &self) {
+            return py::make_iterator(self.begin(), self.end());
+          },
+          py::keep_alive<0, 1>())
       .def(
           "curvilinear_distance",
           [](const geodetic::LineString &self, const std::string &strategy,
-- 
2.43.0


From c9ca927d5665958bb92167d69d583a5fef3f7fe6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 55/89] fix: append a multi-polygon to itself

The range inserted belonged to the vector that grows: its polygons were
moved before they were copied, and the result held empty polygons.
---
 .../core/include/pyinterp/geodetic/multipolygon.hpp       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp b/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
index 7f332a2..c6ca86c 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
@@ -39,7 +39,13 @@ class MultiPolygon : public boost::geometry::model::multi_polygon<Polygon> {
 
   /// Add a multi-polygon to this multipolygon
   auto operator+=(const MultiPolygon &other) -> MultiPolygon {
-    Base::insert(Base::end(), other.begin(), other.end());
+    if (this == &other) {
+      // The range inserted may not belong to the container.
+      const auto copy = Base(other);
+      Base::insert(Base::end(), copy.begin(), copy.end());
+    } else {
+      Base::insert(Base::end(), other.begin(), other.end());
+    }
     return *this;
   }
 
-- 
2.43.0


From 43883454b973196cfcc0b82258ba358b241d0137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 56/89] fix: search the nearest vertices of a crossover by
 scanning the lines

The R*Tree of geographic points missed the nearest vertex of tracks of more
than sixteen vertices when they cross the date line or when the longitudes of
the point follow another convention, and its result was read even if the line
was empty.
---
 src/pyinterp/core/lib/geodetic/crossover.cpp | 68 +++++++++-----------
 1 file changed, 30 insertions(+), 38 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/crossover.cpp b/src/pyinterp/core/lib/geodetic/crossover.cpp
index 66c5dde..8e232b2 100644
--- a/src/pyinterp/core/lib/geodetic/crossover.cpp
+++ b/src/pyinterp/core/lib/geodetic/crossover.cpp
@@ -4,47 +4,37 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "pyinterp/geodetic/crossover.hpp"
 
+#include <limits>
+
 #include "pyinterp/detail/broadcast.hpp"
 #include "pyinterp/detail/geometry/crossover.hpp"
 #include "pyinterp/detail/math.hpp"
 
 namespace pyinterp::geodetic {
 
-/// Search for the nearest index of a point in this linestring to a given point.
-class NearestPoint {
- public:
-  /// Default constructor
-  ///
-  /// @param line the line string to search.
-  explicit NearestPoint(const LineString& line_string) {
-    size_t ix = 0;
-    auto data = std::vector<std::pair<Point, size_t>>();
-    data.reserve(line_string.size());
-    for (const auto& item : line_string) {
-      data.emplace_back(item, ix++);
+/// Find the nearest index of a point in a linestring to a given point.
+///
+/// @param line_string the line string to search.
+/// @param point the point to search.
+/// @return the index of the nearest point or none if the line string is empty.
+static auto nearest_point(const LineString& line_string, const Point& point)
+    -> std::optional<size_t> {
+  // The vertices are scanned: the boxes of an R*Tree of geographic points do
+  // not handle properly the vertices located on both sides of the date line,
+  // nor those whose longitudes follow another convention than the point.
+  auto result = std::optional<size_t>();
+  auto min_distance = std::numeric_limits<double>::max();
+  auto index = static_cast<size_t>(0);
+  for (const auto& item : line_string) {
+    auto distance = boost::geometry::comparable_distance(item, point);
+    if (distance < min_distance) {
+      min_distance = distance;
+      result = index;
     }
-    rtree_ = RTree(data);
-  }
-
-  /// Find the nearest index of a point in this linestring to a given
-  /// point.
-  ///
-  /// @param point the point to search.
-  /// @return the index of the nearest point or none if no intersection is
-  ///         found.
-  [[nodiscard]] inline auto operator()(const Point& point) const -> size_t {
-    std::vector<std::pair<Point, size_t>> result;
-    rtree_.query(boost::geometry::index::nearest(point, 1),
-                 std::back_inserter(result));
-    return result[0].second;
+    ++index;
   }
-
- private:
-  using RTree =
-      boost::geometry::index::rtree<std::pair<Point, size_t>,
-                                    boost::geometry::index::quadratic<16>>;
-  RTree rtree_;
-};
+  return result;
+}
 
 Crossover::Crossover(LineString half_orbit_1, LineString half_orbit_2)
     : half_orbit_1_(std::move(half_orbit_1)),
@@ -94,17 +84,19 @@ auto Crossover::nearest(const Point& point, const double predicate,
                         const DistanceStrategy strategy,
                         const std::optional<Spheroid>& wgs) const
     -> std::optional<std::tuple<size_t, size_t>> {
-  auto ix1 = NearestPoint(half_orbit_1_)(point);
-  if (half_orbit_1_[ix1].distance(point, strategy, wgs) > predicate) {
+  auto ix1 = nearest_point(half_orbit_1_, point);
+  if (!ix1 ||
+      half_orbit_1_[*ix1].distance(point, strategy, wgs) > predicate) {
     return {};
   }
 
-  auto ix2 = NearestPoint(half_orbit_2_)(point);
-  if (half_orbit_2_[ix2].distance(point, strategy, wgs) > predicate) {
+  auto ix2 = nearest_point(half_orbit_2_, point);
+  if (!ix2 ||
+      half_orbit_2_[*ix2].distance(point, strategy, wgs) > predicate) {
     return {};
   }
 
-  return std::make_tuple(ix1, ix2);
+  return std::make_tuple(*ix1, *ix2);
 }
 
 auto crossover(const Eigen::Ref<const Eigen::VectorXd>& lon1,
-- 
2.43.0


From 9a69675c544b46700a48c62969f0dd326f0deb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 57/89] fix: write the text notation of geometries with all
 their digits

The coordinates were written with six significant digits: reading back the
text moved the geometry by up to fifty metres.
---
 src/pyinterp/core/module/geodetic.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index 6d3c3b0..e7ad5ba 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -7,6 +7,9 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <iomanip>
+#include <limits>
+
 #include "pyinterp/geodetic/algorithm.hpp"
 #include "pyinterp/geodetic/box.hpp"
 #include "pyinterp/geodetic/coordinates.hpp"
@@ -116,7 +119,8 @@ Returns:
           "wkt",
           [](const geodetic::Point &self) -> std::string {
             auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
+            ss << std::setprecision(std::numeric_limits<double>::digits10)
+               << boost::geometry::wkt(self);
             return ss.str();
           },
           R"__doc__(
@@ -308,7 +312,8 @@ Returns:
           "wkt",
           [](const geodetic::Box &self) -> std::string {
             auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
+            ss << std::setprecision(std::numeric_limits<double>::digits10)
+               << boost::geometry::wkt(self);
             return ss.str();
           },
           R"__doc__(
@@ -632,7 +637,8 @@ Returns:
           "wkt",
           [](const geodetic::Polygon &self) -> std::string {
             auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
+            ss << std::setprecision(std::numeric_limits<double>::digits10)
+               << boost::geometry::wkt(self);
             return ss.str();
           },
           R"__doc__(
@@ -994,7 +1000,8 @@ Returns:
           "wkt",
           [](const geodetic::MultiPolygon &self) -> std::string {
             auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
+            ss << std::setprecision(std::numeric_limits<double>::digits10)
+               << boost::geometry::wkt(self);
             return ss.str();
           },
           R"__doc__(
@@ -1064,7 +1071,8 @@ Returns:
           "wkt",
           [](const geodetic::LineString &self) -> std::string {
             auto ss = std::stringstream();
-            ss << boost::geometry::wkt(self);
+            ss << std::setprecision(std::numeric_limits<double>::digits10)
+               << boost::geometry::wkt(self);
             return ss.str();
           },
           R"__doc__(
-- 
2.43.0


From 1854844d78ad6f8d8d26a440f13159339d231c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 58/89] fix: restore boxes that extend beyond the date line

The envelope of a geometry which crosses the date line has an eastern corner
beyond 180 degrees: it could be pickled, but not unpickled.
---
 src/pyinterp/core/include/pyinterp/geodetic/box.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
index 5e4d1fb..9bac450 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
@@ -136,8 +136,12 @@ class Box : public boost::geometry::model::box<Point> {
     if (state.size() != 2) {
       throw std::runtime_error("invalid state");
     }
-    return {Point::setstate(state[0].cast<pybind11::tuple>()),
-            Point::setstate(state[1].cast<pybind11::tuple>())};
+    // The corners are not checked: the envelope of a geometry that crosses the
+    // date line goes beyond 180 degrees.
+    auto result = Box();
+    result.min_corner() = Point::setstate(state[0].cast<pybind11::tuple>());
+    result.max_corner() = Point::setstate(state[1].cast<pybind11::tuple>());
+    return result;
   }
 
   auto operator==(const Box &other) const -> bool {
-- 
2.43.0


From 71d58a4b7ed69efd8f3da8ecb025f5d40365376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 59/89] fix: keep normalized angles in their half-open interval

An angle just below the origin was normalized to the excluded upper bound:
normalize_angle(-1e-15, 0, 360) was 360.
---
 src/pyinterp/core/include/pyinterp/detail/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math.hpp b/src/pyinterp/core/include/pyinterp/detail/math.hpp
index a233c4b..af3c53f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math.hpp
@@ -127,7 +127,9 @@ constexpr auto remainder(const T &x, const T &y) noexcept -> T {
 template <typename T>
 constexpr auto normalize_angle(const T &x, const T &min,
                                const T &circle) noexcept -> T {
-  return remainder(x - min, circle) + min;
+  const auto result = remainder(x - min, circle) + min;
+  // The remainder of a tiny negative number is rounded to the whole circle.
+  return result >= min + circle ? min : result;
 }
 
 /// Evaluate the sine function with the argument in degrees
-- 
2.43.0


From 020019e89037a610e7c9d185e73cd38e29a4ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 60/89] fix: return the longitudes normalized out of place

The longitudes of a writeable array that is not contiguous or not made of
float64 are normalized in a copy, which was dropped: the array returned was not
normalized.
---
 src/pyinterp/geodetic/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/geodetic/__init__.py b/src/pyinterp/geodetic/__init__.py
index f972c8e..180e80c 100644
--- a/src/pyinterp/geodetic/__init__.py
+++ b/src/pyinterp/geodetic/__init__.py
@@ -153,11 +153,11 @@ def normalize_longitudes(lon: numpy.ndarray,
     Returns:
         Longitudes normalized to the range ``[min_lon, min_lon + 360)``.
     """
-    if lon.flags.writeable:
-        geodetic.normalize_longitudes(lon, min_lon)
-        return lon
-    return geodetic.normalize_longitudes(  # type: ignore[return-value]
-        lon, min_lon)
+    # The arrays that cannot be modified in place (read-only, strided or of
+    # another type than float64) are left unchanged: None is returned only if
+    # the array has been normalized in place.
+    result = geodetic.normalize_longitudes(lon, min_lon)
+    return lon if result is None else result
 
 
 class RTree(geodetic.RTree):
-- 
2.43.0


From 953bd74d053db064931c63f4b32fb89d8ea6ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 61/89] fix: refuse geohash precisions below one character

---
 .../core/include/pyinterp/geohash.hpp         | 23 +++++++++++--------
 src/pyinterp/core/module/geohash/string.cpp   |  2 +-
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geohash.hpp b/src/pyinterp/core/include/pyinterp/geohash.hpp
index 5a7f57f..41de166 100644
--- a/src/pyinterp/core/include/pyinterp/geohash.hpp
+++ b/src/pyinterp/core/include/pyinterp/geohash.hpp
@@ -54,9 +54,7 @@ class GeoHash {
   /// @param[in] precision Number of characters in the geohash.
   GeoHash(double longitude, double latitude, uint32_t precision)
       : code_(precision, '\0') {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+    check_precision(precision);
     string::encode(
         {detail::math::normalize_angle(longitude, -180.0, 360.0), latitude},
         code_.data(), precision);
@@ -70,10 +68,9 @@ class GeoHash {
   /// @throw std::invalid_argument if the geohash is not valid.
   static auto from_string(const std::string &code, bool round) -> GeoHash {
     auto precision = static_cast<uint32_t>(code.size());
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
-    if (!Base32().validate(code.data(), precision)) {
+    check_precision(precision);
+    if (code.find('\0') != std::string::npos ||
+        !Base32().validate(code.data(), precision)) {
       throw std::invalid_argument("GeoHash is not valid");
     }
     auto result = GeoHash(precision);
@@ -143,6 +140,7 @@ class GeoHash {
   [[nodiscard]] static auto grid_properties(const geodetic::Box &box,
                                             uint32_t precision)
       -> std::tuple<GeoHash, size_t, size_t> {
+    check_precision(precision);
     auto [code, lng_boxes, lat_boxes] =
         int64::grid_properties(box, precision * 5);
     return std::make_tuple(
@@ -154,9 +152,7 @@ class GeoHash {
   /// precision
   [[nodiscard]] static auto error_with_precision(const uint32_t precision)
       -> std::tuple<double, double> {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+    check_precision(precision);
     return int64::error_with_precision(precision * 5);
   }
 
@@ -169,6 +165,13 @@ class GeoHash {
  private:
   std::string code_{};
 
+  /// Checks the number of characters of a geohash.
+  static auto check_precision(const size_t precision) -> void {
+    if (precision < 1 || precision > 12) {
+      throw std::invalid_argument("GeoHash precision must be within [1, 12]");
+    }
+  }
+
   /// Default constructor.
   explicit GeoHash(const size_t precision) : code_(precision, '\0') {}
 
diff --git a/src/pyinterp/core/module/geohash/string.cpp b/src/pyinterp/core/module/geohash/string.cpp
index 4c42418..c979b6c 100644
--- a/src/pyinterp/core/module/geohash/string.cpp
+++ b/src/pyinterp/core/module/geohash/string.cpp
@@ -19,7 +19,7 @@ namespace geodetic = pyinterp::geodetic;
 
 // Checking the value defining the precision of a geohash.
 constexpr static auto check_range(uint32_t precision) -> void {
-  if (precision > 12) {
+  if (precision < 1 || precision > 12) {
     throw std::invalid_argument("precision must be within [1, 12]");
   }
 }
-- 
2.43.0


From de55a31450f5eafb60238a3b180b869e4ed2133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 62/89] fix: geohash of the positions rounded to the upper
 bounds

---
 src/pyinterp/core/lib/geohash/int64.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 749c8a9..4213901 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -76,8 +76,10 @@ constexpr auto encode_range(const double x, const double r) -> uint32_t {
   if (x >= r) {
     return std::numeric_limits<uint32_t>::max();
   }
-  auto p = (x + r) / (2 * r);
-  return static_cast<uint32_t>(p * exp232);
+  auto p = (x + r) / (2 * r) * exp232;
+  // The sum can be rounded up to the upper bound of the range.
+  return p < exp232 ? static_cast<uint32_t>(p)
+                    : std::numeric_limits<uint32_t>::max();
 }
 
 // Decode the 32-bit range encoding X back to a value in the range -r to +r.
@@ -158,12 +160,12 @@ inline auto pextq(const uint64_t x, const uint64_t mask) -> uint64_t {
 // Encodes the point (lat, lon) to a 64-bit integer geohash using the Bit
 // Manipulation Instruction Set 2.
 static auto encode_bim2(const double lat, const double lon) -> uint64_t {
-  auto y = pdepq(
-      lat == 90.0 ? 0X3FFFFFFFFFF : shrq(1.5 + (lat * 0.005555555555555556)),
-      0x5555555555555555);
-  auto x = pdepq(
-      lon == 180.0 ? 0X3FFFFFFFFFF : shrq(1.5 + (lon * 0.002777777777777778)),
-      0x5555555555555555);
+  // The upper bounds, and the positions rounded to them, belong to the last
+  // cells.
+  auto v = 1.5 + (lat * 0.005555555555555556);
+  auto u = 1.5 + (lon * 0.002777777777777778);
+  auto y = pdepq(v >= 2.0 ? 0X3FFFFFFFFFF : shrq(v), 0x5555555555555555);
+  auto x = pdepq(u >= 2.0 ? 0X3FFFFFFFFFF : shrq(u), 0x5555555555555555);
   return (x << 1U) | y;
 }
 
-- 
2.43.0


From 63dd864b444d59619a11ced2f9370e2b89141168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 63/89] fix: bounds of the last geohash cells at full precision

---
 src/pyinterp/core/lib/geohash/int64.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 4213901..ad41942 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -84,9 +84,6 @@ constexpr auto encode_range(const double x, const double r) -> uint32_t {
 
 // Decode the 32-bit range encoding X back to a value in the range -r to +r.
 constexpr auto decode_range(const uint32_t x, const double r) -> double {
-  if (x == std::numeric_limits<uint32_t>::max()) {
-    return r;
-  }
   auto p = static_cast<double>(x) * inv_exp232;
   return 2 * r * p - r;
 }
-- 
2.43.0


From b1a1ddb07bc3c0bd4412b15d1ae04210782535bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 64/89] fix: geohash neighbors across the poles and the date
 line

---
 src/pyinterp/core/lib/geohash/int64.cpp | 39 ++++++++++++-------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index ad41942..982765a 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -273,27 +273,24 @@ auto neighbors(const uint64_t hash, const uint32_t precision)
   auto center = box.centroid();
   auto [lon_delta, lat_delta] = box.delta(false);
 
-  return (Eigen::Matrix<uint64_t, 8, 1>() <<
-              // N
-              encode({center.lon(), center.lat() + lat_delta}, precision),
-          // NE,
-          encode({center.lon() + lon_delta, center.lat() + lat_delta},
-                 precision),
-          // E,
-          encode({center.lon() + lon_delta, center.lat()}, precision),
-          // SE,
-          encode({center.lon() + lon_delta, center.lat() - lat_delta},
-                 precision),
-          // S,
-          encode({center.lon(), center.lat() - lat_delta}, precision),
-          // SW,
-          encode({center.lon() - lon_delta, center.lat() - lat_delta},
-                 precision),
-          // W,
-          encode({center.lon() - lon_delta, center.lat()}, precision),
-          // NW
-          encode({center.lon() - lon_delta, center.lat() + lat_delta},
-                 precision))
+  // Encodes the cell located at the given offset. Beyond a pole, the adjacent
+  // cell is on the opposite meridian.
+  const auto shift = [&, dx = lon_delta, dy = lat_delta](
+                         const int x, const int y) -> uint64_t {
+    auto lon = center.lon() + x * dx;
+    auto lat = center.lat() + y * dy;
+    if (std::abs(lat) > 90) {
+      lat = std::copysign(180.0, lat) - lat;
+      lon += 180;
+    }
+    return encode({detail::math::normalize_angle(lon, -180.0, 360.0), lat},
+                  precision);
+  };
+
+  // N, NE, E, SE, S, SW, W, NW
+  return (Eigen::Matrix<uint64_t, 8, 1>() << shift(0, 1), shift(1, 1),
+          shift(1, 0), shift(1, -1), shift(0, -1), shift(-1, -1), shift(-1, 0),
+          shift(-1, 1))
       .finished();
 }
 
-- 
2.43.0


From ac622081218248b5378b2038a8681cc874d1e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 65/89] fix: geohash grid covers the whole of the given box

---
 src/pyinterp/core/lib/geohash/int64.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 982765a..373b560 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -306,8 +306,9 @@ auto grid_properties(const geodetic::Box &box, const uint32_t precision)
     return std::make_tuple(hash_sw, 1, 1);
   }
 
-  auto lon_offset = box.max_corner().lon() == 180 ? 1 : 0;
-  auto lat_offset = box.max_corner().lat() == 90 ? 1 : 0;
+  // The last cells are part of the grid if the box overlaps them.
+  auto lon_offset = box.max_corner().lon() > box_ne.min_corner().lon() ? 1 : 0;
+  auto lat_offset = box.max_corner().lat() > box_ne.min_corner().lat() ? 1 : 0;
 
   auto lng_lat_err = error_with_precision(precision);
   auto lon_step = static_cast<size_t>(
@@ -317,7 +318,8 @@ auto grid_properties(const geodetic::Box &box, const uint32_t precision)
       std::round((box_ne.min_corner().lat() - box_sw.min_corner().lat()) /
                  (std::get<1>(lng_lat_err))));
 
-  return std::make_tuple(hash_sw, lon_step + lon_offset, lat_step + lat_offset);
+  return std::make_tuple(hash_sw, std::max<size_t>(lon_step + lon_offset, 1),
+                         std::max<size_t>(lat_step + lat_offset, 1));
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 5690c35b02e851277e99fefac5857f13c218f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 66/89] fix: index ranges of the geohash codes seen twice

---
 src/pyinterp/core/lib/geohash/string.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index eb86a5b..227860b 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -383,12 +383,12 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
             neighboring_code = std::string(ptr + (i * cols + j) * chars, chars);
             if (current_code == neighboring_code) {
               auto &first = std::get<0>(it->second);
-              std::get<0>(first) = std::min(std::get<0>(first), i);
-              std::get<1>(first) = std::max(std::get<1>(first), i);
+              std::get<0>(first) = std::min({std::get<0>(first), i, ix});
+              std::get<1>(first) = std::max({std::get<1>(first), i, ix});
 
               auto &second = std::get<1>(it->second);
-              std::get<0>(second) = std::min(std::get<0>(second), j);
-              std::get<1>(second) = std::max(std::get<1>(second), j);
+              std::get<0>(second) = std::min({std::get<0>(second), j, jx});
+              std::get<1>(second) = std::max({std::get<1>(second), j, jx});
             }
           }
         }
-- 
2.43.0


From ea17665ad431b0c6d5da5ddf2c43da6815683ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 67/89] fix: zoom in of geohash codes shorter than the items of
 the array

---
 src/pyinterp/core/lib/geohash/string.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 227860b..4355ed2 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -404,6 +404,15 @@ static auto zoom_in(char *ptr, pybind11::ssize_t size, uint32_t from_precision,
   // Number of bits need to zoom in
   auto bits = to_precision * 5;
 
+  // The size of the result supposes that all codes have the same length.
+  for (pybind11::ssize_t ix = 0; ix < size; ++ix) {
+    auto precision = std::get<1>(
+        base32.decode(ptr + ix * from_precision, from_precision));
+    if (precision != from_precision) {
+      throw std::invalid_argument("hash codes must have the same length");
+    }
+  }
+
   // Calculation of the number of items needed for the result.
   auto size_in = size * (static_cast<size_t>(2)
                          << (5 * (to_precision - from_precision) - 1));
-- 
2.43.0


From ea620240b8d63a54d0d7ab731ba1468dc03d616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 68/89] fix: units of the axes of the geohash grids

---
 src/pyinterp/_geohash.py          | 4 ++--
 src/pyinterp/geohash/converter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/_geohash.py b/src/pyinterp/_geohash.py
index 637ee69..013f2c1 100644
--- a/src/pyinterp/_geohash.py
+++ b/src/pyinterp/_geohash.py
@@ -70,13 +70,13 @@ class GeoHash(BaseGeoHash):
                     xarray.DataArray(
                         lon,
                         dims=('lon', ),
-                        attrs={'units': 'degrees_north'},
+                        attrs={'units': 'degrees_east'},
                     ),
                     'lat':
                     xarray.DataArray(
                         lat,
                         dims=('lat', ),
-                        attrs={'units': 'degrees_east'},
+                        attrs={'units': 'degrees_north'},
                     ),
                 },
             )
diff --git a/src/pyinterp/geohash/converter.py b/src/pyinterp/geohash/converter.py
index 01d2eee..6f948b3 100644
--- a/src/pyinterp/geohash/converter.py
+++ b/src/pyinterp/geohash/converter.py
@@ -46,9 +46,9 @@ def to_xarray(hashes: numpy.ndarray, data: numpy.ndarray) -> xarray.DataArray:
             'lon':
             xarray.DataArray(x_axis,
                              dims=('lon', ),
-                             attrs={'units': 'degrees_north'}),
+                             attrs={'units': 'degrees_east'}),
             'lat':
             xarray.DataArray(y_axis,
                              dims=('lat', ),
-                             attrs={'units': 'degrees_east'})
+                             attrs={'units': 'degrees_north'})
         })
-- 
2.43.0


From 0a8cfb66fc3416803ae884037404210d2e2202c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:18 +0000
Subject: [PATCH 69/89] fix: rounded geohash positions stay in their cells

---
 src/pyinterp/core/include/pyinterp/geodetic/box.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
index 9bac450..157f00f 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
@@ -6,6 +6,7 @@
 #include <pybind11/numpy.h>
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <list>
 #include <set>
 #include <string>
@@ -81,8 +82,11 @@ class Box : public boost::geometry::model::box<Point> {
     const auto xy = delta(true);
     const auto x = std::get<0>(xy);
     const auto y = std::get<1>(xy);
-    return {std::ceil(this->min_corner().lon() / x) * x,
-            std::ceil(this->min_corner().lat() / y) * y};
+    // The product can be rounded to a value outside the box.
+    return {std::clamp(std::ceil(this->min_corner().lon() / x) * x,
+                       this->min_corner().lon(), this->max_corner().lon()),
+            std::clamp(std::ceil(this->min_corner().lat() / y) * y,
+                       this->min_corner().lat(), this->max_corner().lat())};
   }
 
   /// @brief Test if the given point is inside or on border of this instance
-- 
2.43.0


From 735e329e091a5cc45f90781b2e72b84f255ca793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 70/89] fix: ignore the coordinates that are not dimensions in
 Cartesian grids

---
 src/pyinterp/backends/xarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 84539d8..2352616 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -93,8 +93,9 @@ def _dims_from_data_array(data_array: xr.DataArray,
             f'{ndims}, found {size}.')
 
     if not geodetic:
+        # The coordinates can contain variables that are not dimensions.
         return tuple(  # type: ignore[return-value]
-            data_array.coords)[:2]
+            name for name in data_array.coords if name in data_array.dims)[:2]
 
     ident = AxisIdentifier(data_array)
     lon = ident.longitude()
-- 
2.43.0


From 6e718cb1f85c022047a8f95b23978ac76f026b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 71/89] fix: order of the Z and U axes of the labelled 4D grids

---
 src/pyinterp/backends/xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 2352616..5cc0f08 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -348,7 +348,7 @@ class Grid4D(grid.Grid4D):
                  increasing_axes: bool = False,
                  geodetic: bool = True):
         x, y = _dims_from_data_array(data_array, geodetic, ndims=4)
-        z, u = tuple(set(data_array.dims) - {x, y})
+        z, u = tuple(dim for dim in data_array.dims if dim not in (x, y))
 
         # Should the grid manage a time axis?
         self._datetime64 = None
-- 
2.43.0


From 94fb4f0860a1dea8083cf9d9b5cb814641ebd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 72/89] fix: axes of durations in the labelled 4D grids

---
 src/pyinterp/backends/xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 5cc0f08..acba89d 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -353,11 +353,11 @@ class Grid4D(grid.Grid4D):
         # Should the grid manage a time axis?
         self._datetime64 = None
         dtype = data_array.coords[z].dtype
-        if 'datetime64' in dtype.name:
+        if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             self._datetime64 = z, core.TemporalAxis(
                 data_array.coords[z].values)
         dtype = data_array.coords[u].dtype
-        if 'datetime64' in dtype.name:
+        if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             if self._datetime64 is not None:
                 raise ValueError('unable to handle two time axes')
             self._datetime64 = u, core.TemporalAxis(
-- 
2.43.0


From 53e28c58e1c84dd7b48c9a8ec5f287859153416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:22 +0000
Subject: [PATCH 73/89] fix: dates seen backwards in the labelled grids

---
 src/pyinterp/backends/xarray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index acba89d..d956fec 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -264,7 +264,7 @@ class Grid3D(grid.Grid3D):
         self._datetime64: tuple[Hashable, core.TemporalAxis] | None
         if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             self._datetime64 = z, core.TemporalAxis(
-                data_array.coords[z].values)
+                data_array.coords[z].values.copy())
         else:
             self._datetime64 = None
         super().__init__(
@@ -355,13 +355,13 @@ class Grid4D(grid.Grid4D):
         dtype = data_array.coords[z].dtype
         if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             self._datetime64 = z, core.TemporalAxis(
-                data_array.coords[z].values)
+                data_array.coords[z].values.copy())
         dtype = data_array.coords[u].dtype
         if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             if self._datetime64 is not None:
                 raise ValueError('unable to handle two time axes')
             self._datetime64 = u, core.TemporalAxis(
-                data_array.coords[u].values)
+                data_array.coords[u].values.copy())
             # The time axis is the Z axis.
             z, u = u, z
 
-- 
2.43.0


From cd1bf8e959e1cdab0563c5e56087c0260793d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 74/89] fix: start the orbits at the southernmost latitude

An orbit given from the middle of a pass was never rearranged, and its first
pass went on to the end of the next one.
---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 617f96b..4988661 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -116,7 +116,7 @@ def _rearrange_orbit(
     indexes = numpy.where((dy < 0) & (numpy.roll(dy, 1) >= 0))[0]
 
     # If the orbit is already starting from pass 1, nothing to do
-    if indexes[0] < int(indexes.mean()):
+    if indexes[0] <= 1:
         return lon, lat, time
 
     # Shift coordinates, so that the first point of the orbit is the beginning
-- 
2.43.0


From 37977689308b8da4cfbb53bfc0f09a20b4a1460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 75/89] fix: keep the orbits given from the equator

Only the points at the turning latitudes of such an orbit were kept. The orbit
is rearranged afterwards, so that its first pass need not be skewed.
---
 src/pyinterp/orbit.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 4988661..ed9bb56 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -446,17 +446,6 @@ def calculate_orbit(
     """
     wgs = geodetic.Coordinates(spheroid)
 
-    # If the first point of the given orbit starts at the equator, we need to
-    # skew this first pass.
-    if -40 <= lat_nadir[0] <= 40:
-        dy = numpy.roll(lat_nadir, 1) - lat_nadir
-        indexes = numpy.where(((dy < 0) & (numpy.roll(dy, 1) >= 0))
-                              | ((dy > 0)
-                                 & (numpy.roll(dy, 1) <= 0)))[0]
-        lat_nadir = lat_nadir[indexes[1:]]
-        lon_nadir = lon_nadir[indexes[1:]]
-        time = time[indexes[1:]]
-
     lon_nadir = geodetic.normalize_longitudes(lon_nadir)
     time = time.astype('m8[ns]')
 
-- 
2.43.0


From d9a15fcd59769ed90d86331554fc1e0dca86160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 76/89] fix: dates of the orbits rearranged over their cycle

The end of the cycle was taken one time step after the last position even when
the duration of the cycle is known.
---
 src/pyinterp/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index ed9bb56..a9fe0b8 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -472,7 +472,8 @@ def calculate_orbit(
 
     # Rearrange orbit starting from pass 1
     lon_nadir, lat_nadir, time = _rearrange_orbit(
-        time[-1] + time[1] - time[0],
+        time[-1] + time[1] -
+        time[0] if cycle_duration is None else cycle_duration,
         lon_nadir,
         lat_nadir,
         time,
-- 
2.43.0


From 1887f1290781250c5677a0532ed0fb55b9b132ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 77/89] fix: decode the absolute numbers of the passes before
 cycle 1

And those that do not fit in a double precision number.
---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index a9fe0b8..e80e71e 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -229,7 +229,7 @@ class Orbit:
             tuple: cycle and pass number
         """
         number -= 1
-        return (int(number / self.passes_per_cycle()) + 1,
+        return (number // self.passes_per_cycle() + 1,
                 (number % self.passes_per_cycle()) + 1)
 
     def encode_absolute_pass_number(self, cycle_number: int,
-- 
2.43.0


From a7899e357511348b2e74cf9a722319bc1c4cbe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 78/89] fix: iterate over the passes from the epoch

The date 1970-01-01 was replaced by the current date.
---
 src/pyinterp/orbit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index e80e71e..6f3354c 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -274,8 +274,9 @@ class Orbit:
             iterator: An iterator for all passes in the interval pointing to
             the cycle number, pass number and start date of the half-orbit.
         """
-        date = first_date or numpy.datetime64('now')
-        last_date = last_date or date + self.cycle_duration()
+        date = numpy.datetime64('now') if first_date is None else first_date
+        if last_date is None:
+            last_date = date + self.cycle_duration()
         while date <= last_date:
             cycle_number, pass_number = self.decode_absolute_pass_number(
                 absolute_pass_number)
-- 
2.43.0


From b6af7fb51c4dc8d0f0492007e6226991111b5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:46 +0000
Subject: [PATCH 79/89] fix: latitudes of the interpolated orbits

The radius was restored on the sphere, the polar axis on the spheroid: the
positions moved by up to 0.1 degree, even at the given points.
---
 src/pyinterp/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 6f3354c..a16225a 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -52,7 +52,8 @@ def interpolate(
         numpy.full_like(lon, height),
     )
 
-    r = numpy.sqrt(x * x + y * y + z * z * mz * mz)
+    z = z * mz
+    r = numpy.sqrt(x * x + y * y + z * z)
 
     x_axis = core.Axis((xp - xp[0]).astype(numpy.float64), 1e-6, False)
     xi = (xi - xp[0]).astype(numpy.float64)
-- 
2.43.0


From de0d6ed7a0aca8931fa0455460f4787d6d6d4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:06 +0000
Subject: [PATCH 80/89] fix: equator crossed at the beginning of a pass

The pass limited to a box was refused when its first point is the nearest to
the equator, and its second point is on the other side.
---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index a16225a..414e680 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -385,7 +385,7 @@ def _equator_properties(lon_nadir: NDArray, lat_nadir: NDArray,
 
     # Search the nearest point to the equator
     i1 = (numpy.abs(lat_nadir)).argmin()
-    i0 = i1 - 1 if i1 > 0 else 1
+    i0, i1 = (i1 - 1, i1) if i1 > 0 else (0, 1)
     if lat_nadir[i0] * lat_nadir[i1] > 0:
         i0, i1 = (i1, i1 + 1) if i1 < lat_nadir.size - 1 else (i1 - 1, i1)
     lon1 = lon_nadir[i0:i1 + 1]
-- 
2.43.0


From 384ca3f69fd88a27344b19324ed19550ad426761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 81/89] fix: position of the passes at the equator

The geodesic intersection of a segment with a line along the equator itself is
wrong or empty when the segment heads to the south-east or the north-west (all
the descending passes of a prograde orbit), or crosses the date line.
---
 src/pyinterp/orbit.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 414e680..a7dc3fa 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -391,20 +391,18 @@ def _equator_properties(lon_nadir: NDArray, lat_nadir: NDArray,
     lon1 = lon_nadir[i0:i1 + 1]
     lat1 = lat_nadir[i0:i1 + 1]
 
-    # Calculate the position of the satellite at the equator
-    intersection = geodetic.LineString(
-        lon1,
-        lat1,
-    ).intersection(
-        geodetic.LineString(numpy.array([lon1[0] - 0.5, lon1[1] + 0.5]),
-                            numpy.array([0, 0], dtype='float64')))
-    if len(intersection) == 0:
+    # The equator is not crossed between these points
+    if lat1[0] * lat1[1] > 0 or lat1[0] == lat1[1]:
         return EquatorCoordinates.undefined()
 
-    point = intersection[0]
+    # Calculate the position of the satellite at the equator. The date line may
+    # be crossed too.
+    step = (lon1[1] - lon1[0] + 180) % 360 - 180
+    lon_eq = lon1[0] + step * lat1[0] / (lat1[0] - lat1[1])
+    lon_eq = (lon_eq + 180) % 360 - 180
 
     # Calculate the time of the point on the equator
-    lon1 = numpy.insert(lon1, 1, point.lon)
+    lon1 = numpy.insert(lon1, 1, lon_eq)
     lat1 = numpy.insert(lat1, 1, 0)
     x_al = geodetic.LineString(
         lon1,
@@ -416,7 +414,7 @@ def _equator_properties(lon_nadir: NDArray, lat_nadir: NDArray,
     x_al = numpy.delete(x_al, 1)
 
     return EquatorCoordinates(
-        point.lon,
+        lon_eq,
         numpy.interp(  # type: ignore[arg-type]
             x_eq, x_al, time[i0:i1 + 1].astype('i8')).astype(time.dtype),
     )
-- 
2.43.0


From 99b456cd868b9f0b77a3fc076e86602a5ac77422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 82/89] fix: leave the longitudes given to calculate_orbit
 unchanged

---
 src/pyinterp/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index a7dc3fa..817ea00 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -446,7 +446,8 @@ def calculate_orbit(
     """
     wgs = geodetic.Coordinates(spheroid)
 
-    lon_nadir = geodetic.normalize_longitudes(lon_nadir)
+    lon_nadir = geodetic.normalize_longitudes(
+        numpy.array(lon_nadir, dtype=numpy.float64))
     time = time.astype('m8[ns]')
 
     if numpy.mean(numpy.diff(time)) > numpy.timedelta64(500, 'ms'):
-- 
2.43.0


From e46f030ae0e6ea9cf3553a0818f332aa9a8c0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 83/89] fix: across track distances of the swaths

They were spaced by the along track resolution.
---
 src/pyinterp/orbit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 817ea00..deacc3a 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -590,7 +590,6 @@ def calculate_swath(
         The properties of the pass.
     """
     across_track_resolution = across_track_resolution or 2.0
-    along_track_resolution = along_track_resolution or 2
     half_swath = half_swath or 70.0
     half_gap = half_gap or 2.0
 
@@ -598,7 +597,7 @@ def calculate_swath(
     # Number of points in half of the swath
     half_swath = int((half_swath - half_gap) / across_track_resolution) + 1
     x_ac = numpy.arange(half_swath,
-                        dtype=float) * along_track_resolution + half_gap
+                        dtype=float) * across_track_resolution + half_gap
     x_ac = numpy.hstack((-numpy.flip(x_ac), x_ac)) * 1e3
     x_ac = numpy.full((len(half_orbit), x_ac.size), x_ac)
 
-- 
2.43.0


From 0e95efedf3dffbf225d72a8c35e04e297c96817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 84/89] fix: swaths without a gap

A half gap of zero was replaced by the default one.
---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index deacc3a..4a5c79b 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -591,7 +591,7 @@ def calculate_swath(
     """
     across_track_resolution = across_track_resolution or 2.0
     half_swath = half_swath or 70.0
-    half_gap = half_gap or 2.0
+    half_gap = 2.0 if half_gap is None else half_gap
 
     # Compute across track distances from nadir
     # Number of points in half of the swath
-- 
2.43.0


From 017e5d7008ddfafba7090c9595805a1b62fe13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 85/89] fix: last pixel of the swaths

It was missing if the number of pixels was rounded to just below an integer.
Swaths narrower than their gap are refused.
---
 src/pyinterp/orbit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 4a5c79b..bef3615 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -594,8 +594,12 @@ def calculate_swath(
     half_gap = 2.0 if half_gap is None else half_gap
 
     # Compute across track distances from nadir
-    # Number of points in half of the swath
-    half_swath = int((half_swath - half_gap) / across_track_resolution) + 1
+    if half_swath < half_gap:
+        raise ValueError('half_swath must be greater than or equal to half_gap')
+    # Number of points in half of the swath. The quotient is known within
+    # rounding errors.
+    half_swath = int((half_swath - half_gap) / across_track_resolution +
+                     1e-6) + 1
     x_ac = numpy.arange(half_swath,
                         dtype=float) * across_track_resolution + half_gap
     x_ac = numpy.hstack((-numpy.flip(x_ac), x_ac)) * 1e3
-- 
2.43.0


From eaf8e29a53047483bde3817beda30ca519e1e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 86/89] fix: swaths of one or two points

The directions of a track of two points were not initialised, and those of a
single point were written out of bounds.
---
 .../core/include/pyinterp/detail/math/orbit.hpp        | 10 ++++++++++
 src/pyinterp/core/include/pyinterp/geodetic/swath.hpp  |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp b/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
index 7d0a401..9bf4106 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
@@ -7,6 +7,7 @@
 #include <Eigen/Geometry>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
 #include <tuple>
 
 #include "pyinterp/detail/math.hpp"
@@ -17,7 +18,16 @@ namespace pyinterp::detail::math {
 template <typename T>
 auto satellite_direction(const Eigen::Matrix<T, Eigen::Dynamic, 3>& location)
     -> Eigen::Matrix<T, Eigen::Dynamic, 3> {
+  if (location.rows() < 2) {
+    throw std::invalid_argument(
+        "at least two locations are needed to know the direction");
+  }
   auto result = Eigen::Matrix<T, Eigen::Dynamic, 3>(location.rows(), 3);
+  if (location.rows() == 2) {
+    result.row(0) = location.row(1) - location.row(0);
+    result.row(1) = result.row(0);
+    return result;
+  }
   auto denominator = location.block(1, 0, location.rows() - 2, 3)
                          .array()
                          .pow(2)
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/swath.hpp b/src/pyinterp/core/include/pyinterp/geodetic/swath.hpp
index 6afe31b..053b84f 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/swath.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/swath.hpp
@@ -6,6 +6,7 @@
 #include <pybind11/eigen.h>
 
 #include <Eigen/Core>
+#include <stdexcept>
 #include <tuple>
 
 #include "pyinterp/detail/broadcast.hpp"
@@ -42,6 +43,9 @@ template <typename T>
     -> std::tuple<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>,
                   Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>> {
   detail::check_eigen_shape("lon_nadir", lon_nadir, "lat_nadir", lat_nadir);
+  if (half_swath < 0) {
+    throw std::invalid_argument("half_swath must be positive");
+  }
   auto spheroid_ = spheroid.value_or(detail::geodetic::Spheroid());
   auto coordinates = detail::geodetic::Coordinates(spheroid_);
   auto location = lla_to_ecef(lon_nadir, lat_nadir, coordinates);
-- 
2.43.0


From 3b6c7baccbf0a47b21cf9d755edf1ae6115872c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:54 +0000
Subject: [PATCH 87/89] fix: a circle with uneven longitudes is recognised
 whatever the rounding

The gap at the seam of an uneven axis was compared with its mean step without
the tolerance given to the constructor: longitudes covering the whole circle
were a circle or not depending on the rounding of their values.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 3101292..27dce5f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -550,7 +550,7 @@ class Axis {
         auto increment = (axis_->max_value() - axis_->min_value()) /
                          static_cast<T>(axis_->size() - 1);
         is_circle_ = std::fabs((axis_->max_value() - axis_->min_value()) -
-                               circle_) <= increment;
+                               circle_) <= increment + epsilon;
       }
     }
   }
-- 
2.43.0


From af2a9b858cafddc124c38784ea4789f997895166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:18 +0000
Subject: [PATCH 88/89] fix: geohash cells of the geometries across the date
 line

The envelope of such a geometry goes beyond 180 degrees: the cells located
after the date line were left out.
---
 src/pyinterp/core/lib/geohash/int64.cpp  | 25 ++++++++++++++++++------
 src/pyinterp/core/lib/geohash/string.cpp |  9 ++++++---
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 373b560..921c03b 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -297,28 +297,40 @@ auto neighbors(const uint64_t hash, const uint32_t precision)
 // ---------------------------------------------------------------------------
 auto grid_properties(const geodetic::Box &box, const uint32_t precision)
     -> std::tuple<uint64_t, size_t, size_t> {
+  // The envelope of a geometry that crosses the date line goes beyond 180
+  // degrees.
+  const auto turn = box.max_corner().lon() > 180 ? 360.0 : 0.0;
+  const auto max_lon = box.max_corner().lon() - turn;
+
   auto hash_sw = encode(box.min_corner(), precision);
   auto box_sw = bounding_box(hash_sw, precision);
-  auto box_ne = bounding_box(encode(box.max_corner(), precision), precision);
+  auto box_ne = bounding_box(
+      encode({max_lon, box.max_corner().lat()}, precision), precision);
 
   // Special case: the box is a single point
-  if (box_sw == box_ne) {
+  if (box_sw == box_ne && turn == 0) {
     return std::make_tuple(hash_sw, 1, 1);
   }
 
   // The last cells are part of the grid if the box overlaps them.
-  auto lon_offset = box.max_corner().lon() > box_ne.min_corner().lon() ? 1 : 0;
+  auto lon_offset = max_lon > box_ne.min_corner().lon() ? 1 : 0;
   auto lat_offset = box.max_corner().lat() > box_ne.min_corner().lat() ? 1 : 0;
 
   auto lng_lat_err = error_with_precision(precision);
   auto lon_step = static_cast<size_t>(
-      std::round((box_ne.min_corner().lon() - box_sw.min_corner().lon()) /
+      std::round((box_ne.min_corner().lon() + turn -
+                  box_sw.min_corner().lon()) /
                  (std::get<0>(lng_lat_err))));
   auto lat_step = static_cast<size_t>(
       std::round((box_ne.min_corner().lat() - box_sw.min_corner().lat()) /
                  (std::get<1>(lng_lat_err))));
 
-  return std::make_tuple(hash_sw, std::max<size_t>(lon_step + lon_offset, 1),
+  // A cell is never repeated, even if the box surrounds the Earth.
+  lon_step = std::min(
+      lon_step + lon_offset,
+      static_cast<size_t>(std::round(360 / std::get<0>(lng_lat_err))));
+
+  return std::make_tuple(hash_sw, std::max<size_t>(lon_step, 1),
                          std::max<size_t>(lat_step + lat_offset, 1));
 }
 
@@ -340,7 +352,8 @@ auto bounding_boxes(const geodetic::Box &box, const uint32_t precision)
         geodetic::Point(0, point_sw.lat() + static_cast<double>(lat) * lat_err);
 
     for (size_t lon = 0; lon < lon_step; ++lon) {
-      point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+      point.lon(detail::math::normalize_angle(
+          point_sw.lon() + static_cast<double>(lon) * lng_err, -180.0, 360.0));
       result(ix++) = encode(point, precision);
     }
   }
diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 4355ed2..9ee5247 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -209,7 +209,8 @@ auto bounding_boxes(const std::optional<geodetic::Box> &box,
           0, point_sw.lat() + static_cast<double>(lat) * lat_err);
 
       for (size_t lon = 0; lon < lon_step; ++lon) {
-        point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+        point.lon(detail::math::normalize_angle(
+            point_sw.lon() + static_cast<double>(lon) * lng_err, -180.0, 360.0));
 
         Base32::encode(int64::encode(point, bits), buffer, precision);
         buffer += precision;
@@ -243,7 +244,8 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
               0, point_sw.lat() + static_cast<double>(lat) * lat_err);
 
           for (size_t lon = 0; lon < lon_step; ++lon) {
-            point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+            point.lon(detail::math::normalize_angle(
+                point_sw.lon() + static_cast<double>(lon) * lng_err, -180.0, 360.0));
             result(lon, lat) = boost::geometry::intersects(
                 int64::bounding_box(int64::encode(point, bits), bits),
                 geometry);
@@ -284,7 +286,8 @@ static auto select_cell(const double lng_err, const double lat_err,
 
       for (size_t lon = 0; lon < lon_step; ++lon) {
         if (mask(lon, lat)) {
-          point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+          point.lon(detail::math::normalize_angle(
+              point_sw.lon() + static_cast<double>(lon) * lng_err, -180.0, 360.0));
 
           Base32::encode(int64::encode(point, bits), buffer, precision);
           buffer += precision;
-- 
2.43.0


From 42745908d6428acac5caa5aa7ca6bc58ed8d9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:54 +0000
Subject: [PATCH 89/89] fix: weight of the points of a bin that are at its
 corners

---
 src/pyinterp/core/include/pyinterp/detail/math/binning.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp b/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
index 55888ea..a21daba 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/binning.hpp
@@ -30,6 +30,10 @@ inline auto calculate_and_normalize_area(
     boost::geometry::model::polygon<Point<T>> &polygon,
     const Strategy &strategy, const double total_area) -> T {
   auto result = calculate_area<Point, Strategy, T>(polygon, strategy);
+  // The rounding of the area of the whole cell can exceed that of the cell.
+  if (result > total_area && result - total_area <= 1e-6 * total_area) {
+    result = total_area;
+  }
   if (result > total_area || std::fabs(result) < 1e-12) {
     result = 0;
   }
-- 
2.43.0

