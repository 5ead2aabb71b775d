From 0fd353a32714832c60173360107c1705dc28a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 01/59] fix: do not reject parallel vectors in getInternalAngle
 because of rounding

---
 .../geometry/include/geometry/vector3/internal_angle.hpp   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/include/geometry/vector3/internal_angle.hpp b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
index 30168a2..4422de3 100644
--- a/common/math/geometry/include/geometry/vector3/internal_angle.hpp
+++ b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
@@ -15,6 +15,8 @@
 #ifndef GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 #define GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 
+#include <algorithm>
+#include <cmath>
 #include <geometry/vector3/inner_product.hpp>
 #include <geometry/vector3/is_like_vector3.hpp>
 #include <geometry/vector3/norm.hpp>
@@ -31,8 +33,9 @@ template <
 auto getInternalAngle(const T & v0, const U & v1)
 {
   const auto val = innerProduct(v0, v1) / (norm(v0) * norm(v1));
-  if (-1 <= val && val <= 1) {
-    return std::acos(val);
+  if (std::isfinite(val)) {
+    /// @note Rounding may bring the value for (anti)parallel vectors slightly out of [-1, 1].
+    return std::acos(std::clamp(val, -1.0, 1.0));
   }
   THROW_SIMULATION_ERROR(
     "value of v0*v1/(size(v0)*size(v1)) in vector v0 : ", v0.x, ",", v0.y, ",", v0.z,
-- 
2.43.0


From 1eaf7c1998da0509fb7e32a679502fa834aadafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 02/59] fix: name the VEHICLE_WITH_ROAD_SHOULDER routing graph
 type

---
 .../traffic_simulator/src/data_type/routing_graph_type.cpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp b/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
index 519b3de..e9df59e 100644
--- a/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
+++ b/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
@@ -25,6 +25,8 @@ char const * to_string(const RoutingGraphType & type)
       return "VEHICLE";
     case RoutingGraphType::PEDESTRIAN:
       return "PEDESTRIAN";
+    case RoutingGraphType::VEHICLE_WITH_ROAD_SHOULDER:
+      return "VEHICLE_WITH_ROAD_SHOULDER";
     default:
       return "UNKNOWN";
   }
-- 
2.43.0


From bc3cf814e284832954384fdbcb15fe5c817f980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 03/59] fix: return a finite quaternion from slerp when
 rounding makes the dot product exceed 1

---
 common/math/geometry/include/geometry/quaternion/slerp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/include/geometry/quaternion/slerp.hpp b/common/math/geometry/include/geometry/quaternion/slerp.hpp
index 1207de2..6a6ea16 100644
--- a/common/math/geometry/include/geometry/quaternion/slerp.hpp
+++ b/common/math/geometry/include/geometry/quaternion/slerp.hpp
@@ -32,7 +32,7 @@ auto slerp(T quat1, U quat2, V t)
   double qr = quat1.w * quat2.w + quat1.x * quat2.x + quat1.y * quat2.y + quat1.z * quat2.z;
   double ss = 1.0 - qr * qr;
   constexpr double e = std::numeric_limits<double>::epsilon();
-  if (std::fabs(ss) <= e) {
+  if (ss <= e) {
     return geometry_msgs::build<geometry_msgs::msg::Quaternion>()
       .x(quat1.x)
       .y(quat1.y)
-- 
2.43.0


From 4bb729491a39fd4bb8f6cca48c9d07728789fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 04/59] fix: do not lose intersections of line segments to
 rounding of the intersection point

---
 common/math/geometry/src/polygon/line_segment.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index 791fb8f..8d7e48a 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
 #include <cmath>
 #include <geometry/intersection/intersection.hpp>
 #include <geometry/polygon/line_segment.hpp>
@@ -193,7 +194,11 @@ auto LineSegment::get2DIntersectionSValue(const LineSegment & line, const bool d
   -> std::optional<double>
 {
   if (const auto point = getIntersection2D(line); point.has_value()) {
-    return get2DIntersectionSValue(point.value(), denormalize_s);
+    /// @note The point is on this line segment by construction. It must not be checked again,
+    /// because it may be off the line segment by the rounding error of its calculation.
+    const double proportion_2d = std::min(
+      std::hypot(point->x - start_point.x, point->y - start_point.y) / length_2d, 1.0);
+    return denormalize_s ? proportion_2d * length : proportion_2d;
   } else {
     return std::nullopt;
   }
-- 
2.43.0


From f38a4987385c6697d69f13b3e1d39883c2fffa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 05/59] fix: do not index a string literal by lanelet id in the
 error of followingLanelets

---
 simulation/traffic_simulator/src/lanelet_wrapper/route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
index 62215bf..f746dd7 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/route.cpp
@@ -84,7 +84,7 @@ auto followingLanelets(
             following_lanelets_ids.empty() ? current_lanelet_id : following_lanelets_ids.back();
           not is_following_lanelet(previous_lanelet, candidate_lanelet_id)) {
         THROW_SEMANTIC_ERROR(
-          candidate_lanelet_id + " is not the follower of lanelet " + previous_lanelet);
+          candidate_lanelet_id, " is not the follower of lanelet ", previous_lanelet);
       }
       following_lanelets_ids.push_back(candidate_lanelet_id);
       total_distance += lanelet_map::laneletLength(candidate_lanelet_id);
-- 
2.43.0


From 96abb1d14cf79dea9e7594a1f84012b72e54b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 06/59] fix: find the real root of cubic equations whose
 reduced form has no turning points

---
 common/math/geometry/src/solver/polynomial_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/solver/polynomial_solver.cpp b/common/math/geometry/src/solver/polynomial_solver.cpp
index 17eddcc..0b72ba3 100644
--- a/common/math/geometry/src/solver/polynomial_solver.cpp
+++ b/common/math/geometry/src/solver/polynomial_solver.cpp
@@ -189,7 +189,7 @@ auto PolynomialSolver::solveMonicCubicEquationWithComplex(
     // clang-format off
     [this, a](const auto q, const auto r) -> std::vector<std::complex<double>> {
     // clang-format on
-    if (const double q3 = q * q * q; r * r <= (q3 + tolerance)) {
+    if (const double q3 = q * q * q; 0 < q3 && r * r <= (q3 + tolerance)) {
       /**
        * @note If 3 real solutions are found.
        * The URL specified in @sa is a reference material for developers who wish to follow the formulas,
-- 
2.43.0


From 940b3e5cc9b4e0e31628d5013e8f2ec095adc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 07/59] fix: do not report crossings off a line segment that is
 almost parallel to an axis

---
 .../geometry/src/spline/hermite_curve.cpp     | 26 +++++++------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/common/math/geometry/src/spline/hermite_curve.cpp b/common/math/geometry/src/spline/hermite_curve.cpp
index 06ff944..eb70afe 100644
--- a/common/math/geometry/src/spline/hermite_curve.cpp
+++ b/common/math/geometry/src/spline/hermite_curve.cpp
@@ -158,23 +158,15 @@ std::set<double> HermiteCurve::getCollisionPointsIn2D(
   };
 
   for (const auto solution : get_solutions()) {
-    constexpr double epsilon = std::numeric_limits<double>::epsilon();
-    double x = solver_.cubic(ax_, bx_, cx_, dx_, solution);
-    double tx = (x - point0.x) / (point1.x - point0.x);
-    double y = solver_.cubic(ay_, by_, cy_, dy_, solution);
-    double ty = (y - point0.y) / (point1.y - point0.y);
-    if (std::abs(tx - ty) > epsilon || std::isnan(tx) || std::isnan(ty)) {
-      /**
-       * @note If the curve and the line segment to be intersected are parallel to either of the x/y axes, one of the two parameters, 
-       * tx, ty, will be in the range [0, 1] while the other will be out of that range because of division by zero.
-       */
-      if ((0 <= tx && tx <= 1) || (0 <= ty && ty <= 1)) {
-        s_values.insert(denormalize(solution));
-      }
-    } else {
-      if ((0 <= tx && tx <= 1) && (0 <= ty && ty <= 1)) {
-        s_values.insert(denormalize(solution));
-      }
+    /**
+     * @note Calculate the position of the intersection along the line segment from the axis in which the line segment is longer.
+     * The other axis is not reliable, if the line segment is (almost) parallel to one of the x/y axes.
+     */
+    const double t = std::abs(ey) < std::abs(ex)
+                       ? (solver_.cubic(ax_, bx_, cx_, dx_, solution) - point0.x) / ex
+                       : (solver_.cubic(ay_, by_, cy_, dy_, solution) - point0.y) / ey;
+    if (0 <= t && t <= 1) {
+      s_values.insert(denormalize(solution));
     }
   }
   return s_values;
-- 
2.43.0


From 965b92242d86f04d0a6393bfa94352e5bbe043ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 08/59] fix: compute the slope of line segments that run in the
 negative x direction

---
 common/math/geometry/src/polygon/line_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index 8d7e48a..e126027 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -230,7 +230,7 @@ auto LineSegment::getNormalVector() const -> geometry_msgs::msg::Vector3
 
 auto LineSegment::get2DVectorSlope() const -> double
 {
-  if (vector_2d.x <= std::numeric_limits<double>::epsilon()) {
+  if (std::abs(vector_2d.x) <= std::numeric_limits<double>::epsilon()) {
     THROW_SIMULATION_ERROR("Slope of a vertical line is undefined");
   } else {
     return vector_2d.y / vector_2d.x;
-- 
2.43.0


From 8934d3645e4513f4358896f8b6680b4ad366ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 09/59] fix: report points left of a line segment as 1 and
 right of it as -1, as documented

---
 common/math/geometry/src/polygon/line_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index e126027..773a128 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -367,7 +367,7 @@ auto LineSegment::relativePointPosition2D(const geometry_msgs::msg::Point & poin
 {
   constexpr double tolerance = std::numeric_limits<double>::epsilon();
   const double determinant =
-    vector_2d.y * (point.x - end_point.x) - vector_2d.x * (point.y - end_point.y);
+    vector_2d.x * (point.y - end_point.y) - vector_2d.y * (point.x - end_point.x);
   return static_cast<int>(determinant > tolerance) - static_cast<int>(determinant < -tolerance);
 }
 
-- 
2.43.0


From ce4d0a20464c5012caece5f6dc7aa1b9a537e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 10/59] fix: close the rings of polygons before computing
 distances and containment

---
 common/math/geometry/src/distance.cpp               | 2 ++
 common/math/geometry/src/intersection/collision.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/common/math/geometry/src/distance.cpp b/common/math/geometry/src/distance.cpp
index 8860087..b489e8f 100644
--- a/common/math/geometry/src/distance.cpp
+++ b/common/math/geometry/src/distance.cpp
@@ -64,10 +64,12 @@ double getDistance2D(
   for (const auto & point : polygon0) {
     boost::geometry::exterior_ring(poly0).push_back(boost_point(point.x, point.y));
   }
+  boost::geometry::correct(poly0);
   boost_polygon poly1;
   for (const auto & point : polygon1) {
     boost::geometry::exterior_ring(poly1).push_back(boost_point(point.x, point.y));
   }
+  boost::geometry::correct(poly1);
   return boost::geometry::distance(poly0, poly1);
 }
 }  // namespace geometry
diff --git a/common/math/geometry/src/intersection/collision.cpp b/common/math/geometry/src/intersection/collision.cpp
index a7db3bf..983a102 100644
--- a/common/math/geometry/src/intersection/collision.cpp
+++ b/common/math/geometry/src/intersection/collision.cpp
@@ -56,6 +56,7 @@ bool contains(
   for (const auto & p : polygon) {
     boost::geometry::exterior_ring(poly).push_back(boost_point(p.x, p.y));
   }
+  boost::geometry::correct(poly);
   return boost::geometry::within(boost_point(point.x, point.y), poly);
 }
 }  // namespace geometry
-- 
2.43.0


From f846b399735f538944fa093e974961a316bd621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 11/59] fix: convert the control time and the is_defined flags
 of control messages

---
 simulation/simulation_interface/src/conversions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simulation/simulation_interface/src/conversions.cpp b/simulation/simulation_interface/src/conversions.cpp
index 5d006d3..9099c9d 100644
--- a/simulation/simulation_interface/src/conversions.cpp
+++ b/simulation/simulation_interface/src/conversions.cpp
@@ -493,16 +493,20 @@ void toProto(
   const autoware_control_msgs::msg::Lateral & message, autoware_control_msgs::Lateral & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_steering_tire_angle(message.steering_tire_angle);
   proto.set_steering_tire_rotation_rate(message.steering_tire_rotation_rate);
+  proto.set_is_defined_steering_tire_rotation_rate(message.is_defined_steering_tire_rotation_rate);
 }
 
 void toMsg(
   const autoware_control_msgs::Lateral & proto, autoware_control_msgs::msg::Lateral & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.steering_tire_angle = proto.steering_tire_angle();
   message.steering_tire_rotation_rate = proto.steering_tire_rotation_rate();
+  message.is_defined_steering_tire_rotation_rate = proto.is_defined_steering_tire_rotation_rate();
 }
 
 void toProto(
@@ -510,9 +514,12 @@ void toProto(
   autoware_control_msgs::Longitudinal & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_velocity(message.velocity);
   proto.set_acceleration(message.acceleration);
   proto.set_jerk(message.jerk);
+  proto.set_is_defined_acceleration(message.is_defined_acceleration);
+  proto.set_is_defined_jerk(message.is_defined_jerk);
 }
 
 void toMsg(
@@ -520,15 +527,19 @@ void toMsg(
   autoware_control_msgs::msg::Longitudinal & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.velocity = proto.velocity();
   message.acceleration = proto.acceleration();
   message.jerk = proto.jerk();
+  message.is_defined_acceleration = proto.is_defined_acceleration();
+  message.is_defined_jerk = proto.is_defined_jerk();
 }
 
 void toProto(
   const autoware_control_msgs::msg::Control & message, autoware_control_msgs::Control & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   toProto(message.lateral, *proto.mutable_lateral());
   toProto(message.longitudinal, *proto.mutable_longitudinal());
 }
@@ -537,6 +548,7 @@ void toMsg(
   const autoware_control_msgs::Control & proto, autoware_control_msgs::msg::Control & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   toMsg(proto.lateral(), message.lateral);
   toMsg(proto.longitudinal(), message.longitudinal);
 }
-- 
2.43.0


From e77e00262b6e88f1de040df30358da9cf7b6faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 12/59] fix: visit the cell in which a grid traversal ends and
 step correctly from grid lines

---
 .../occupancy_grid/grid_traversal.hpp               |  1 +
 .../occupancy_grid/grid_traversal.cpp               | 13 ++++++-------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
index eb94085..a21a8b5 100644
--- a/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
+++ b/simulation/simple_sensor_simulator/include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp
@@ -40,6 +40,7 @@ class GridTraversal
   private:
     const GridTraversal * parent_;
 
+    double t_ = 0.0;  // where the line enters the current cell
     double tx_, ty_;
     int32_t x_, y_;
   };
diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 39e56d4..ca43ae1 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -33,11 +33,11 @@ GridTraversal::GridTraversal(double start_x, double start_y, double end_x, doubl
 
 auto GridTraversal::begin() const -> Iterator
 {
-  double tx = vx_ > 0 ? std::ceil(start_x_) : std::floor(start_x_);
-  double ty = vy_ > 0 ? std::ceil(start_y_) : std::floor(start_y_);
+  double tx = vx_ > 0 ? std::floor(start_x_) + 1.0 : std::floor(start_x_);
+  double ty = vy_ > 0 ? std::floor(start_y_) + 1.0 : std::floor(start_y_);
   tx = vx_ != 0 ? (tx - start_x_) / vx_ : tdx_;
   ty = vy_ != 0 ? (ty - start_y_) / vy_ : tdy_;
-  return {this, tx, ty, int32_t(start_x_), int32_t(start_y_)};
+  return {this, tx, ty, int32_t(std::floor(start_x_)), int32_t(std::floor(start_y_))};
 }
 
 auto GridTraversal::end() const -> Sentinel { return {}; }
@@ -53,18 +53,17 @@ auto GridTraversal::Iterator::operator*() -> Index { return {x_, y_}; }
 auto GridTraversal::Iterator::operator++() -> Iterator &
 {
   if (tx_ < ty_) {
+    t_ = tx_;
     tx_ += parent_->tdx_;
     x_ += parent_->step_x_;
   } else {
+    t_ = ty_;
     ty_ += parent_->tdy_;
     y_ += parent_->step_y_;
   }
   return *this;
 }
 
-auto GridTraversal::Iterator::operator!=(const Sentinel &) -> bool
-{
-  return tx_ <= 1.0 || ty_ <= 1.0;
-}
+auto GridTraversal::Iterator::operator!=(const Sentinel &) -> bool { return t_ < 1.0; }
 
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From 4f601a20d03b2a4ed07b32671948d4b671953baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 13/59] fix: make the whole grid invisible when an object
 covers the origin of the occupancy grid

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 53e8456..37764a0 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -125,7 +125,7 @@ auto OccupancyGridBuilder::makeInvisibleArea(const PolygonType & occupied_polygo
     for (size_t i = 0; i < occupied_polygon.size(); ++i) {
       const auto & p = occupied_polygon[i];
       const auto & q = occupied_polygon[(i + 1) % occupied_polygon.size()];
-      overlap_origin &= p.x * q.y - q.x * p.y < 0;
+      overlap_origin &= p.x * q.y - q.x * p.y <= 0;
     }
     if (overlap_origin) return corners;
   }
-- 
2.43.0


From 0b1df2e771e5df0157008dce7d42533a0d7afe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 14/59] fix: place the origin of occupancy grids that are not
 square at their corner

---
 .../occupancy_grid/occupancy_grid_sensor.cpp                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
index c48ecc4..1dacd42 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
@@ -149,8 +149,8 @@ auto OccupancyGridSensor<nav_msgs::msg::OccupancyGrid>::getOccupancyGrid(
   res.info.map_load_time = stamp;
   res.info.resolution = configuration_.resolution();
   res.info.origin = ego_pose_north_up;
-  res.info.origin.position.x -= 0.5 * configuration_.height() * configuration_.resolution();
-  res.info.origin.position.y -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.x -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.y -= 0.5 * configuration_.height() * configuration_.resolution();
   return res;
 }
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From 45a1381926bba296dd3e5fc3ab5b61387a5f2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:08 +0000
Subject: [PATCH 15/59] fix: close the ring of the grid area that clips objects
 of the occupancy grid

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 37764a0..e58cd4e 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -84,6 +84,7 @@ auto OccupancyGridBuilder::makeOccupiedArea(const PrimitiveType & primitive) con
     {+real_width, -real_height},  // bottom right
     {-real_width, -real_height},  // bottom left
     {-real_width, +real_height},  // top left
+    {+real_width, +real_height},  // top right (the ring has to be closed)
   };
 
   // Clip a polygon to fit into grid area
-- 
2.43.0


From dc7cd838f5b692168a0221191297bb7810daa05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 16/59] fix: read the autocorrelation coefficients of the
 detection noise under their documented names

---
 .../sensor_simulation/detection_sensor/detection_sensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
index 03b2036..b10d097 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
@@ -387,11 +387,11 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
     auto autocorrelation_coefficient =
       [&](const std::string & parameter_base_path, const double interval) {
         const auto amplitude = common::getParameter<double>(
-          parameter_base_path + "autocorrelation_coefficient.amplitude");
+          parameter_base_path + ".autocorrelation_coefficient.amplitude");
         const auto decay =
-          common::getParameter<double>(parameter_base_path + "autocorrelation_coefficient.decay");
+          common::getParameter<double>(parameter_base_path + ".autocorrelation_coefficient.decay");
         const auto offset =
-          common::getParameter<double>(parameter_base_path + "autocorrelation_coefficient.offset");
+          common::getParameter<double>(parameter_base_path + ".autocorrelation_coefficient.offset");
         return std::clamp(amplitude * std::exp(-decay * interval) + offset, 0.0, 1.0);
       };
 
-- 
2.43.0


From 13f982c1fe1838d3ac5948790c0947375425f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 17/59] fix: publish entities in the first frame in which
 detection noise v3 and v4 see them

---
 .../detection_sensor/detection_sensor.cpp          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
index b10d097..8fb1435 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
@@ -531,12 +531,13 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
     auto noise_v3 = [&](const auto & detected_entities, auto simulation_time) {
       auto noised_detected_entities = std::decay_t<decltype(detected_entities)>();
       for (const auto & entity : detected_entities) {
-        if (auto [noise_output, success] = noise_outputs.emplace(entity.name(), simulation_time);
-            success) {
+        auto [noise_output, success] = noise_outputs.emplace(entity.name(), simulation_time);
+        if (success) {
           noise_output->second.config_name =
             noise_parameter_selector::findMatchingNoiseConfigForEntity(
               entity, "v3", detected_objects_publisher->get_topic_name());
-        } else if (not noise_output->second.config_name.empty()) {
+        }
+        if (not noise_output->second.config_name.empty()) {
           auto vanilla_entity = std::vector<traffic_simulator_msgs::EntityStatus>{entity};
           const std::string config_namespace = "v3." + noise_output->second.config_name;
           auto noised_entity = noise_v2(vanilla_entity, simulation_time, config_namespace);
@@ -671,12 +672,13 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
       };
       auto noised_detected_entities = std::decay_t<decltype(detected_entities)>();
       for (const auto & entity : detected_entities) {
-        if (auto [noise_output, success] = noise_outputs.emplace(entity.name(), simulation_time);
-            success) {
+        auto [noise_output, success] = noise_outputs.emplace(entity.name(), simulation_time);
+        if (success) {
           noise_output->second.config_name =
             noise_parameter_selector::findMatchingNoiseConfigForEntity(
               entity, "v4", detected_objects_publisher->get_topic_name());
-        } else if (not noise_output->second.config_name.empty()) {
+        }
+        if (not noise_output->second.config_name.empty()) {
           const std::string parameter_base_path =
             std::string(detected_objects_publisher->get_topic_name()) + ".noise.v4." +
             noise_output->second.config_name + ".";
-- 
2.43.0


From f2a59d7d6df6517b5555878b98f77b8655b0d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 18/59] fix: do not square the ellipse radii of the lidar noise
 model twice

---
 .../src/sensor_simulation/lidar/lidar_noise_model_v1.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
index 255db43..ab86023 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/lidar/lidar_noise_model_v1.cpp
@@ -56,8 +56,8 @@ LidarNoiseModelV1::Config::Config(const std::string & topic_name, const std::str
     bins.reserve(ellipse_y_radii.size());
     for (size_t i = 0; i < ellipse_y_radii.size(); ++i) {
       bins.emplace_back(
-        ellipse_y_radii[i] * ellipse_y_radii[i], radial_mean[i], radial_stddev[i],
-        tangential_mean[i], tangential_stddev[i], tpr_values[i]);
+        ellipse_y_radii[i], radial_mean[i], radial_stddev[i], tangential_mean[i],
+        tangential_stddev[i], tpr_values[i]);
     }
     return bins;
   }())
-- 
2.43.0


From 2b4f7c89c4a10876717f3494dd206fe32dcf9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 19/59] fix: lay the ellipses of the detection noise along the
 ego entity

---
 .../detection_sensor/detection_sensor.cpp     | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
index 8fb1435..ea19a3e 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/detection_sensor.cpp
@@ -24,6 +24,7 @@
 #include <geometry/quaternion/get_angle_difference.hpp>
 #include <geometry/quaternion/get_normal_vector.hpp>
 #include <geometry/quaternion/get_rotation_matrix.hpp>
+#include <geometry/quaternion/quaternion_to_euler.hpp>
 #include <geometry/transform.hpp>
 #include <geometry/vector3/hypot.hpp>
 #include <iomanip>
@@ -395,6 +396,20 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
         return std::clamp(amplitude * std::exp(-decay * interval) + offset, 0.0, 1.0);
       };
 
+    /*
+       The ellipses of the noise models are defined in the local coordinate
+       system of the ego entity, where the x-axis is its longitudinal direction
+       and the y-axis is its lateral direction.
+    */
+    auto make_selector = [&](const std::string & parameter_base_path, double x, double y) {
+      geometry_msgs::msg::Quaternion ego_orientation;
+      simulation_interface::toMsg(ego_entity_status->pose().orientation(), ego_orientation);
+      const auto yaw = math::geometry::convertQuaternionToEulerAngle(ego_orientation).z;
+      return noise_parameter_selector::createEllipticalParameterSelector(
+        parameter_base_path, x * std::cos(yaw) + y * std::sin(yaw),
+        y * std::cos(yaw) - x * std::sin(yaw));
+    };
+
     auto yaw_flip = [&](
                       bool previous_flip, double speed, double interval,
                       const std::string & parameter_base_path) -> bool {
@@ -469,8 +484,7 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
           std::string(detected_objects_publisher->get_topic_name()) + ".noise." +
           version_namespace + ".";
 
-        auto selector =
-          noise_parameter_selector::createEllipticalParameterSelector(version_base_path, x, y);
+        auto selector = make_selector(version_base_path, x, y);
 
         noise_output->second.distance_noise = [&]() {
           const auto mean = selector("distance.mean");
@@ -579,7 +593,7 @@ auto DetectionSensor<autoware_perception_msgs::msg::DetectedObjects>::update(
             ego_baselink_2d, math::geometry::toPolygon2D(entity_pose, entity_bounding_box));
         }();
 
-        auto selector = noise_parameter_selector::createEllipticalParameterSelector(
+        auto selector = make_selector(
           parameter_base_path, noise_base.x() - ego_baselink_2d.x(),
           noise_base.y() - ego_baselink_2d.y());
 
-- 
2.43.0


From 5a784d12bbd5aaf76c3913ab28f49960489814e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 20/59] fix: plan decelerations that take a given time

---
 .../behavior/longitudinal_speed_planning.cpp  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
index 0a3f47f..67d101e 100644
--- a/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
+++ b/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp
@@ -52,7 +52,7 @@ auto LongitudinalSpeedPlanner::planConstraintsFromJerkAndTimeConstraint(
       2 * (target_speed - current_twist.linear.x - current_accel.linear.x * acceleration_duration) /
       (acceleration_duration * acceleration_duration);
     ret.max_deceleration_rate =
-      2 * (target_speed - current_twist.linear.x - current_accel.linear.x * acceleration_duration) /
+      -2 * (target_speed - current_twist.linear.x - current_accel.linear.x * acceleration_duration) /
       (acceleration_duration * acceleration_duration);
   } else {
     if (isAccelerating(target_speed, current_twist)) {
@@ -75,15 +75,15 @@ auto LongitudinalSpeedPlanner::planConstraintsFromJerkAndTimeConstraint(
         (constraints.max_deceleration_rate * acceleration_duration *
          constraints.max_deceleration_rate * acceleration_duration) -
         2 * constraints.max_deceleration_rate *
-          (current_twist.linear.x - current_accel.linear.x * acceleration_duration - target_speed);
+          (current_twist.linear.x + current_accel.linear.x * acceleration_duration - target_speed);
 
       if (discriminant < 0) {
         THROW_SEMANTIC_ERROR(
           "Negative discriminant: the target speed is too high compared to the deceleration.");
       }
 
-      ret.max_deceleration = -constraints.max_deceleration_rate * acceleration_duration +
-                             std::sqrt(discriminant) + current_accel.linear.x;
+      ret.max_deceleration = constraints.max_deceleration_rate * acceleration_duration -
+                             std::sqrt(discriminant) - current_accel.linear.x;
     }
   }
   return ret;
@@ -151,7 +151,7 @@ auto LongitudinalSpeedPlanner::getVelocityWithConstantJerk(
       current_twist, current_accel, constraints.max_acceleration_rate, duration);
   } else {
     return getVelocityWithConstantJerk(
-      current_twist, current_accel, constraints.max_deceleration_rate, duration);
+      current_twist, current_accel, -constraints.max_deceleration_rate, duration);
   }
 }
 
@@ -172,13 +172,13 @@ auto LongitudinalSpeedPlanner::getQuadraticAccelerationDurationWithConstantJerk(
     return (-current_accel.linear.x + std::sqrt(
                                         current_accel.linear.x * current_accel.linear.x +
                                         2 * constraints.max_acceleration_rate *
-                                          (constraints.max_speed - current_twist.linear.x))) /
+                                          (target_speed - current_twist.linear.x))) /
            constraints.max_acceleration_rate;
   } else {
-    return (-current_accel.linear.x + std::sqrt(
-                                        current_accel.linear.x * current_accel.linear.x +
-                                        2 * constraints.max_deceleration_rate *
-                                          (-constraints.max_speed - current_twist.linear.x))) /
+    return (current_accel.linear.x + std::sqrt(
+                                       current_accel.linear.x * current_accel.linear.x +
+                                       2 * constraints.max_deceleration_rate *
+                                         (current_twist.linear.x - target_speed))) /
            constraints.max_deceleration_rate;
   }
 }
@@ -204,11 +204,11 @@ auto LongitudinalSpeedPlanner::getQuadraticAccelerationDuration(
     }
   } else {
     double duration =
-      (current_accel.linear.x - constraints.max_deceleration) / constraints.max_deceleration_rate;
+      (current_accel.linear.x + constraints.max_deceleration) / constraints.max_deceleration_rate;
     double v = getVelocityWithConstantJerk(
       current_twist, current_accel, -constraints.max_deceleration_rate, duration);
     // While quadratic acceleration, the entity does not reached the target speed.
-    if (v < target_speed) {
+    if (v > target_speed) {
       return duration;
     }
     // While quadratic acceleration, the entity reached the target speed.
-- 
2.43.0


From 0e86a414b09ec5de8d9ef693e3ab64af5e5f289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 21/59] fix: alternative lanelet poses that cannot be reached
 are not the nearest

---
 simulation/traffic_simulator/src/data_type/lanelet_pose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/data_type/lanelet_pose.cpp b/simulation/traffic_simulator/src/data_type/lanelet_pose.cpp
index 7841234..6d245f2 100644
--- a/simulation/traffic_simulator/src/data_type/lanelet_pose.cpp
+++ b/simulation/traffic_simulator/src/data_type/lanelet_pose.cpp
@@ -80,7 +80,8 @@ auto CanonicalizedLaneletPose::getAlternativeLaneletPoseBaseOnShortestRouteFrom(
   for (const auto & laneletPose : lanelet_poses_) {
     const auto route =
       route::routeFromGraph(from.lanelet_id, laneletPose.lanelet_id, routing_configuration);
-    if (shortest_route.size() > route.size()) {
+    /// @note an empty route means that the lanelet cannot be reached
+    if (!route.empty() && (shortest_route.empty() || shortest_route.size() > route.size())) {
       shortest_route = route;
       alternative_lanelet_pose = laneletPose;
     }
-- 
2.43.0


From e3c1f178dd62ebfb064dbbb0cf68f24a37dc6da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 22/59] fix: leave a lanelet once when several next lanelets
 are in the route

---
 simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
index e4134a3..789f610 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
@@ -390,6 +390,7 @@ auto canonicalizeLaneletPose(const LaneletPose & lanelet_pose, const lanelet::Id
         canonicalized_lanelet_pose.s -=
           lanelet_map::laneletLength(canonicalized_lanelet_pose.lanelet_id);
         canonicalized_lanelet_pose.lanelet_id = next_lanelet_id;
+        break;
       }
     }
     if (!found_next_lanelet_in_route) {
-- 
2.43.0


From 1f24c370c49f29596678037164bf0530c7605f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 23/59] fix: plan the routes of every entity with its own
 routing graph

---
 simulation/traffic_simulator/src/behavior/route_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/behavior/route_planner.cpp b/simulation/traffic_simulator/src/behavior/route_planner.cpp
index 3265688..07efc81 100644
--- a/simulation/traffic_simulator/src/behavior/route_planner.cpp
+++ b/simulation/traffic_simulator/src/behavior/route_planner.cpp
@@ -113,7 +113,7 @@ auto RoutePlanner::updateRoute(const CanonicalizedLaneletPose & entity_lanelet_p
     }
   }
   const auto lanelet_pose = static_cast<LaneletPose>(entity_lanelet_pose);
-  static auto routing_configuration = [this]() {
+  const auto routing_configuration = [this]() {
     RoutingConfiguration config;
     config.routing_graph_type = routing_graph_type_;
     config.allow_lane_change = false;
-- 
2.43.0


From 15dd9df16acb4ded82ca84634b217013c60bf414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 24/59] fix: plan a new route for new waypoints and after
 passing a waypoint

---
 simulation/traffic_simulator/src/behavior/route_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulation/traffic_simulator/src/behavior/route_planner.cpp b/simulation/traffic_simulator/src/behavior/route_planner.cpp
index 07efc81..6573b8c 100644
--- a/simulation/traffic_simulator/src/behavior/route_planner.cpp
+++ b/simulation/traffic_simulator/src/behavior/route_planner.cpp
@@ -27,6 +27,7 @@ auto RoutePlanner::setWaypoints(const std::vector<CanonicalizedLaneletPose> & wa
   // Just setting waypoints to the queue, do not planning route.
   waypoint_queue_.clear();
   whole_lanelet_ids_.clear();
+  route_ = std::nullopt;
   for (const auto & waypoint : waypoints) {
     waypoint_queue_.push_back(waypoint);
     if (whole_lanelet_ids_.empty()) {
@@ -111,6 +112,8 @@ auto RoutePlanner::updateRoute(const CanonicalizedLaneletPose & entity_lanelet_p
       cancelRoute();
       return;
     }
+    // The route planned so far ends at the waypoint that was just passed.
+    route_ = std::nullopt;
   }
   const auto lanelet_pose = static_cast<LaneletPose>(entity_lanelet_pose);
   const auto routing_configuration = [this]() {
-- 
2.43.0


From c9a8eda50253f7e980541d22403519888d8f0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 25/59] fix: follow the previous lanelets when moving back past
 the start of a lanelet

---
 simulation/traffic_simulator/src/utils/route.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/utils/route.cpp b/simulation/traffic_simulator/src/utils/route.cpp
index c3be0fc..2c156d5 100644
--- a/simulation/traffic_simulator/src/utils/route.cpp
+++ b/simulation/traffic_simulator/src/utils/route.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <algorithm>
 #include <geometry/spline/catmull_rom_spline.hpp>
 #include <traffic_simulator/lanelet_wrapper/lanelet_map.hpp>
 #include <traffic_simulator/lanelet_wrapper/pose.hpp>
@@ -97,7 +98,10 @@ auto moveBackPoints(const CanonicalizedLaneletPose & canonicalized_lanelet_pose)
   -> std::vector<Point>
 {
   const auto lanelet_pose = static_cast<LaneletPose>(canonicalized_lanelet_pose);
-  const auto ids = route::previousLanelets(lanelet_pose.lanelet_id);
+  constexpr double backward_distance = 5.0;
+  auto ids = route::previousLanelets(lanelet_pose.lanelet_id, backward_distance - lanelet_pose.s);
+  // the spline runs forward, so the lanelet that is furthest back comes first
+  std::reverse(ids.begin(), ids.end());
   // DIFFERENT SPLINE - recalculation needed
   Spline spline(lanelet_wrapper::lanelet_map::centerPoints(ids));
   double s_in_spline = 0;
@@ -109,7 +113,8 @@ auto moveBackPoints(const CanonicalizedLaneletPose & canonicalized_lanelet_pose)
       s_in_spline = lanelet_wrapper::lanelet_map::laneletLength(id) + s_in_spline;
     }
   }
-  return spline.getTrajectory(s_in_spline, s_in_spline - 5, 1.0, lanelet_pose.offset);
+  return spline.getTrajectory(
+    s_in_spline, s_in_spline - backward_distance, 1.0, lanelet_pose.offset);
 }
 
 // Lane change
-- 
2.43.0


From 9ff7682af6b3c7083be6e9f72aefaf9d64887bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 26/59] fix: join the centre lines of consecutive lanelets
 despite rounding

---
 .../src/lanelet_wrapper/lanelet_map.cpp                  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
index b4a5caf..e37af99 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_map.cpp
@@ -178,8 +178,15 @@ auto centerPoints(const lanelet::Ids & lanelet_ids) -> std::vector<Point>
       center_points.insert(center_points.end(), points.begin(), points.end());
     }
     /// @note We intentionally do not sort here, because only consecutive duplicates are supposed to be removed
+    /// @note The end of a lanelet and the start of the next one may differ by rounding
+    constexpr double duplicate_tolerance{1e-6};
     center_points.erase(
-      std::unique(center_points.begin(), center_points.end()), center_points.end());
+      std::unique(
+        center_points.begin(), center_points.end(),
+        [](const auto & a, const auto & b) {
+          return math::geometry::hypot(a, b) < duplicate_tolerance;
+        }),
+      center_points.end());
     return center_points;
   }
 }
-- 
2.43.0


From f7bb7d2543946240ab5b99255310f7c38a28a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 27/59] fix: triggers and condition groups start as not
 satisfied instead of uninitialised

---
 .../include/openscenario_interpreter/syntax/condition_group.hpp | 2 +-
 .../include/openscenario_interpreter/syntax/trigger.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
index 8acc2f1..84d4653 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/condition_group.hpp
@@ -39,7 +39,7 @@ inline namespace syntax
  * -------------------------------------------------------------------------- */
 struct ConditionGroup : public std::list<Condition>
 {
-  bool current_value;
+  bool current_value = false;
 
   // NOTE: Default constructed ConditionGroup must be return TRUE.
   ConditionGroup() = default;
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
index 3f7418d..d6c61a1 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/trigger.hpp
@@ -35,7 +35,7 @@ inline namespace syntax
  * -------------------------------------------------------------------------- */
 struct Trigger : public std::list<ConditionGroup>
 {
-  bool current_value;
+  bool current_value = false;
 
   // NOTE: Default constructed Trigger must be return FALSE.
   Trigger() = default;
-- 
2.43.0


From 2f892101f400116413a94d5267bfa883d99eaef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 28/59] fix: a StoryboardElementStateCondition stayed true once
 its state had been reached

---
 .../src/syntax/storyboard_element_state_condition.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
index 5d8758f..01ac69b 100644
--- a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
@@ -85,7 +85,8 @@ auto StoryboardElementStateCondition::evaluate() -> Object
      check to see if the current StoryboardElement state is indeed the state
      being monitored.
   */
-  return asBoolean(current_state == state or update() == state);
+  const auto has_transitioned = current_state == state;
+  return asBoolean(update() == state or has_transitioned);
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From f98c0ea7b6cd9512e2aa93cd0112714a32f5b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 29/59] fix: stopping a storyboard element started the elements
 still waiting below it

---
 .../syntax/storyboard_element.hpp                 | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 060506e..64378b9 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -88,9 +88,7 @@ public:
 
   auto override()
   {
-    if (
-      not is<StoryboardElementState::standbyState>() and
-      not is<StoryboardElementState::stopTransition>()) {
+    if (is<StoryboardElementState::runningState>()) {
       transitionTo(stop_transition);
     }
     return current_state;
@@ -120,8 +118,15 @@ private:
   {
     for (auto && element : elements) {
       assert(element.is_also<StoryboardElement>());
-      element.as<StoryboardElement>().override();
-      element.evaluate();
+      /*
+         NOTE: Only the elements that are interrupted are evaluated. Elements
+         that are still in standbyState must not start because of the stop of
+         their parent.
+      */
+      if (element.as<StoryboardElement>().override();
+          element.as<StoryboardElement>().is<StoryboardElementState::stopTransition>()) {
+        element.evaluate();
+      }
     }
   }
 
-- 
2.43.0


From 61f578183e653d23a449abbd3e46e3a1026505a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 30/59] fix: a ManeuverGroup executed again runs its completed
 events again

---
 .../openscenario_interpreter/syntax/maneuver.hpp    |  2 ++
 .../syntax/storyboard_element.hpp                   | 13 +++++++++++++
 .../src/syntax/maneuver.cpp                         |  8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/maneuver.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/maneuver.hpp
index 83d7d7a..adbd933 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/maneuver.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/maneuver.hpp
@@ -44,6 +44,8 @@ struct Maneuver : public Scope, public StoryboardElement
 
   auto run() -> void override;
 
+  auto start() -> void override;
+
   auto overrideEvents() -> void;
 
   auto running_events_count() const -> std::size_t;
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 64378b9..4c67616 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -94,6 +94,19 @@ public:
     return current_state;
   }
 
+  /*
+     Resetting the completeState can only be achieved externally by the parent
+     StoryboardElement whose child is in the completeState. This may only occur
+     if the parent initiates a new execution.
+  */
+  auto reset()
+  {
+    if (is<StoryboardElementState::completeState>()) {
+      current_execution_count = 0;
+      transitionTo(standby_state);
+    }
+  }
+
 private:
   virtual auto accomplished() const -> bool
   {
diff --git a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
index 8bd3fc4..a819d9b 100644
--- a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
@@ -44,6 +44,14 @@ auto Maneuver::run() -> void
   }
 }
 
+auto Maneuver::start() -> void
+{
+  for (auto && element : elements) {
+    assert(element.is<Event>());
+    element.as<Event>().reset();
+  }
+}
+
 auto Maneuver::overrideEvents() -> void
 {
   for (auto && element : elements) {
-- 
2.43.0


From e063bfa72b117996746ecba3afb18740de62de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 31/59] fix: expressions lost all digits of their results
 beyond the sixth decimal place

---
 openscenario/openscenario_interpreter/src/evaluate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index b9f8ea6..8178e28 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <boost/lexical_cast.hpp>
 #include <boost/spirit/include/phoenix.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <functional>
@@ -245,7 +246,7 @@ std::string evaluate(const std::string & expression, const Scope & scope)
   return visit(
     overload(
       [](bool v) -> std::string { return v ? "true" : "false"; },
-      [](auto v) -> std::string { return std::to_string(v); }),
+      [](auto v) -> std::string { return boost::lexical_cast<std::string>(v); }),
     output.data);
 }
 
-- 
2.43.0


From 1ac1f6aab569defcb92610a742a32b70f6964df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 32/59] fix: sqrt in expressions truncated its result to an
 integer

---
 openscenario/openscenario_interpreter/src/evaluate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/evaluate.cpp b/openscenario/openscenario_interpreter/src/evaluate.cpp
index 8178e28..3e2637c 100644
--- a/openscenario/openscenario_interpreter/src/evaluate.cpp
+++ b/openscenario/openscenario_interpreter/src/evaluate.cpp
@@ -119,7 +119,7 @@ struct Value
   DEFINE_UNARY(round, [](double v) { return static_cast<int>(std::round(v)); }, double, int)
   DEFINE_UNARY(floor, [](double v) { return static_cast<int>(std::floor(v)); }, double, int)
   DEFINE_UNARY(ceil,  [](double v) { return static_cast<int>(std::ceil(v)); },  double, int)
-  DEFINE_UNARY(sqrt,  [](double v) { return static_cast<int>(std::sqrt(v)); },  double, int)
+  DEFINE_UNARY(sqrt,  [](double v) { return std::sqrt(v); },                    double, double)
   // clang-format on
   DEFINE_UNARY(operator-, -, Numeric, Numeric)
   DEFINE_UNARY(operator!, !, bool, bool)
-- 
2.43.0


From ad9ee01fc792a7737483c3147fc9c8410f1644a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 33/59] fix: a boolean literal followed by anything else was
 accepted

---
 openscenario/openscenario_interpreter/src/syntax/boolean.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
index bef6f81..dc4eb39 100644
--- a/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/boolean.cpp
@@ -32,7 +32,8 @@ Boolean::Boolean(const std::string & target)
 {
   std::stringstream interpreter;
 
-  if (!(interpreter << target && interpreter >> std::boolalpha >> data)) {
+  if (!(interpreter << target && interpreter >> std::boolalpha >> data) ||
+      !(interpreter >> std::ws).eof()) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(target);
   }
 }
-- 
2.43.0


From 571c00d1c863710c17ed08cb1204683c5c632028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 34/59] fix: adding to and multiplying unsigned parameters
 truncated the operand to an unsigned value

---
 .../openscenario_interpreter/syntax/unsigned_integer.hpp      | 4 ++--
 .../openscenario_interpreter/syntax/unsigned_short.hpp        | 4 ++--
 .../openscenario_interpreter/src/syntax/unsigned_integer.cpp  | 4 ++--
 .../openscenario_interpreter/src/syntax/unsigned_short.cpp    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
index 8e05247..71ae575 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
@@ -37,9 +37,9 @@ struct UnsignedInteger
 
   auto operator++() noexcept -> UnsignedInteger &;
 
-  auto operator+=(const value_type &) -> UnsignedInteger &;
+  auto operator+=(const double &) -> UnsignedInteger &;
 
-  auto operator*=(const value_type &) -> UnsignedInteger &;
+  auto operator*=(const double &) -> UnsignedInteger &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
index 958076e..9d95245 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
@@ -36,9 +36,9 @@ struct UnsignedShort
 
   auto operator++() noexcept -> UnsignedShort &;
 
-  auto operator+=(const value_type &) -> UnsignedShort &;
+  auto operator+=(const double &) -> UnsignedShort &;
 
-  auto operator*=(const value_type &) -> UnsignedShort &;
+  auto operator*=(const double &) -> UnsignedShort &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index 4a2094c..d5e5ed5 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -39,13 +39,13 @@ auto UnsignedInteger::operator++() noexcept -> UnsignedInteger &
   return *this;
 }
 
-auto UnsignedInteger::operator+=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator+=(const double & rhs) -> UnsignedInteger &
 {
   data += rhs;
   return *this;
 }
 
-auto UnsignedInteger::operator*=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator*=(const double & rhs) -> UnsignedInteger &
 {
   data *= rhs;
   return *this;
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index bfc23d9..5d51706 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -41,13 +41,13 @@ auto UnsignedShort::operator++() noexcept -> UnsignedShort &
   return *this;
 }
 
-auto UnsignedShort::operator+=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator+=(const double & rhs) -> UnsignedShort &
 {
   data += rhs;
   return *this;
 }
 
-auto UnsignedShort::operator*=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator*=(const double & rhs) -> UnsignedShort &
 {
   data *= rhs;
   return *this;
-- 
2.43.0


From 5fe427e08dd5bb2d10b57e9d5d48aa332b66fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 35/59] fix: negative literals were accepted as huge unsigned
 values

---
 .../src/syntax/unsigned_integer.cpp                    | 10 ++++++++--
 .../src/syntax/unsigned_short.cpp                      | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index d5e5ed5..69c35a4 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -27,7 +27,7 @@ UnsignedInteger::UnsignedInteger(value_type value) { data = value; }
 UnsignedInteger::UnsignedInteger(const std::string & s)
 {
   try {
-    data = boost::lexical_cast<value_type>(s);
+    data = boost::lexical_cast<UnsignedInteger>(s);
   } catch (const boost::bad_lexical_cast &) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
   }
@@ -55,7 +55,13 @@ UnsignedInteger::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedInteger & datum) -> std::istream &
 {
-  return is >> datum.data;
+  // NOTE: The standard extraction accepts "-1" and wraps it around.
+  if (is.peek() == '-') {
+    is.setstate(std::ios_base::failbit);
+    return is;
+  } else {
+    return is >> datum.data;
+  }
 }
 
 auto operator<<(std::ostream & os, const UnsignedInteger & datum) -> std::ostream &
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index 5d51706..072b313 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -29,7 +29,7 @@ UnsignedShort::UnsignedShort(value_type value) { data = value; }
 UnsignedShort::UnsignedShort(const std::string & s)
 {
   try {
-    data = boost::lexical_cast<value_type>(s);
+    data = boost::lexical_cast<UnsignedShort>(s);
   } catch (const boost::bad_lexical_cast &) {
     throw INVALID_NUMERIC_LITERAL_SPECIFIED(s);
   }
@@ -57,7 +57,13 @@ UnsignedShort::operator value_type() const noexcept { return data; }
 
 auto operator>>(std::istream & is, UnsignedShort & datum) -> std::istream &
 {
-  return is >> datum.data;
+  // NOTE: The standard extraction accepts "-1" and wraps it around.
+  if (is.peek() == '-') {
+    is.setstate(std::ios_base::failbit);
+    return is;
+  } else {
+    return is >> datum.data;
+  }
 }
 
 auto operator<<(std::ostream & os, const UnsignedShort & datum) -> std::ostream &
-- 
2.43.0


From a88330f502402f462d394015c94b801d5bc9aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 36/59] fix: parameter assignments of a catalog reference did
 not override the declared defaults

---
 .../src/syntax/catalog_reference.cpp                 | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/catalog_reference.cpp b/openscenario/openscenario_interpreter/src/syntax/catalog_reference.cpp
index 68e3704..60f7b13 100644
--- a/openscenario/openscenario_interpreter/src/syntax/catalog_reference.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/catalog_reference.cpp
@@ -121,7 +121,17 @@ auto CatalogReference::make() -> const Object
   return choice_by_attribute(
     catalog_node, "name", std::make_pair(entry_name, [&](const pugi::xml_node & node) {
       if (auto iter = dispatcher.find(node.name()); iter != std::end(dispatcher)) {
-        return iter->second(node);
+        // NOTE: The assigned values take the place of the values declared by the catalog entry.
+        auto document = pugi::xml_document();
+        auto entry = document.append_copy(node);
+        for (const auto & assignment : parameter_assignments) {
+          entry.child("ParameterDeclarations")
+            .find_child_by_attribute(
+              "ParameterDeclaration", "name", assignment.parameterRef.c_str())
+            .attribute("value")
+            .set_value(assignment.value.c_str());
+        }
+        return iter->second(entry);
       } else {
         std::stringstream what;
         what << "Catalog element must be one of following elements: ";
-- 
2.43.0


From 475def52e1fb629405be4911decd2e0518cbd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 37/59] fix: swap the sides of the boxes in
 boundingBoxLaneLateralDistance

If the other box is to the left, the left side of the one and the right side of the other face each other.
---
 simulation/traffic_simulator/src/utils/distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/utils/distance.cpp b/simulation/traffic_simulator/src/utils/distance.cpp
index 96cc183..2a44294 100644
--- a/simulation/traffic_simulator/src/utils/distance.cpp
+++ b/simulation/traffic_simulator/src/utils/distance.cpp
@@ -144,10 +144,10 @@ auto boundingBoxLaneLateralDistance(
     auto bounding_box_distance = 0.0;
     if (lateral_distance.value() > 0.0) {
       bounding_box_distance =
-        -std::abs(from_bounding_box_distances.right) - std::abs(to_bounding_box_distances.left);
+        -std::abs(from_bounding_box_distances.left) - std::abs(to_bounding_box_distances.right);
     } else if (lateral_distance.value() < 0.0) {
       bounding_box_distance =
-        std::abs(from_bounding_box_distances.left) + std::abs(to_bounding_box_distances.right);
+        std::abs(from_bounding_box_distances.right) + std::abs(to_bounding_box_distances.left);
     }
     return lateral_distance.value() + bounding_box_distance;
   }
-- 
2.43.0


From 194fca5b74820e564d8c91ba0c873c66ee747f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 38/59] fix: do not close a lane bound into a polygon to
 measure the distance to it

The area between the bound and the line from its last to its first point counted as the bound.
---
 .../traffic_simulator/src/utils/distance.cpp  | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/utils/distance.cpp b/simulation/traffic_simulator/src/utils/distance.cpp
index 2a44294..d71b1af 100644
--- a/simulation/traffic_simulator/src/utils/distance.cpp
+++ b/simulation/traffic_simulator/src/utils/distance.cpp
@@ -12,6 +12,10 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <boost/geometry.hpp>
+#include <boost/geometry/geometries/linestring.hpp>
+#include <boost/geometry/geometries/point_xy.hpp>
+#include <boost/geometry/geometries/polygon.hpp>
 #include <geometry/bounding_box.hpp>
 #include <geometry/distance.hpp>
 #include <geometry/transform.hpp>
@@ -281,6 +285,27 @@ auto splineDistanceToBoundingBox(
 }
 
 // Bounds
+namespace
+{
+/// @note A bound is an open line, it must not be closed as the ring of a polygon would be.
+auto distanceFromLineToPolygon(
+  const std::vector<geometry_msgs::msg::Point> & line,
+  const std::vector<geometry_msgs::msg::Point> & polygon) -> double
+{
+  using boost_point = boost::geometry::model::d2::point_xy<double>;
+  boost::geometry::model::linestring<boost_point> boost_line;
+  for (const auto & point : line) {
+    boost_line.push_back(boost_point(point.x, point.y));
+  }
+  boost::geometry::model::polygon<boost_point> boost_polygon;
+  for (const auto & point : polygon) {
+    boost_polygon.outer().push_back(boost_point(point.x, point.y));
+  }
+  boost::geometry::correct(boost_polygon);
+  return boost::geometry::distance(boost_line, boost_polygon);
+}
+}  // namespace
+
 auto distanceToLeftLaneBound(
   const geometry_msgs::msg::Pose & map_pose,
   const traffic_simulator_msgs::msg::BoundingBox & bounding_box, const lanelet::Id lanelet_id)
@@ -294,7 +319,7 @@ auto distanceToLeftLaneBound(
              polygon.empty()) {
     THROW_SEMANTIC_ERROR("Failed to calculate 2d polygon.");
   } else {
-    return math::geometry::getDistance2D(bound, polygon);
+    return distanceFromLineToPolygon(bound, polygon);
   }
 }
 
@@ -330,7 +355,7 @@ auto distanceToRightLaneBound(
              polygon.empty()) {
     THROW_SEMANTIC_ERROR("Failed to calculate 2d polygon.");
   } else {
-    return math::geometry::getDistance2D(bound, polygon);
+    return distanceFromLineToPolygon(bound, polygon);
   }
 }
 
-- 
2.43.0


From da47963a09f391325c2e7a0365f58df9f49a6428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 39/59] fix: report the nearest stop line of a traffic light,
 not the first one found

---
 .../traffic_simulator/src/lanelet_wrapper/distance.cpp     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp
index fd3f0a9..2b92d1c 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/distance.cpp
@@ -186,13 +186,16 @@ auto distanceToTrafficLightStopLine(
   if (route_spline.getLength() <= 0) {
     return std::nullopt;
   } else {
+    std::optional<double> min_distance{std::nullopt};
     const auto stop_lines = traffic_lights::trafficLightStopLinesPoints(traffic_light_id);
     for (const auto & stop_line : stop_lines) {
       if (const auto collision_point = route_spline.getCollisionPointIn2D(stop_line)) {
-        return collision_point;
+        if (not min_distance.has_value() or collision_point.value() < min_distance.value()) {
+          min_distance = collision_point;
+        }
       }
     }
-    return std::nullopt;
+    return min_distance;
   }
 }
 
-- 
2.43.0


From e074ce45de2bf08182e36a12e0a269d7fcdd476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 40/59] fix: ignore traffic lights without a stop line when
 collecting stop lines

They gave an empty polyline, for which the distance to the stop line threw.
---
 .../traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp
index 58155f6..a86e715 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/traffic_lights.cpp
@@ -178,9 +178,8 @@ auto trafficLightStopLinesPoints(const lanelet::Id traffic_light_id)
 {
   std::vector<std::vector<Point>> stop_lines;
   for (const auto & traffic_light : toAutowareTrafficLights(traffic_light_id)) {
-    stop_lines.emplace_back(std::vector<Point>{});
     if (const auto & lanelet_stop_line = traffic_light->stopLine()) {
-      auto & current_stop_line = stop_lines.back();
+      auto & current_stop_line = stop_lines.emplace_back();
       for (const auto & point : lanelet_stop_line.value()) {
         current_stop_line.push_back(
           geometry_msgs::build<Point>().x(point.x()).y(point.y()).z(point.z()));
-- 
2.43.0


From e5c0f8162f79d7d314ca2f031ffb51d1d200d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 41/59] fix: accept an EntitySelection as the target of a
 RelativeClearanceCondition

It was converted to the name of a single object, which threw.
---
 .../src/syntax/relative_clearance_condition.cpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
index b89e898..96b68f2 100644
--- a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
@@ -145,7 +145,7 @@ auto RelativeClearanceCondition::evaluate() -> Object
     if (not entity_refs.empty()) {
       return std::all_of(
         entity_refs.begin(), entity_refs.end(), [&](const auto & target_entity_ref) {
-          const auto & target_entity = global().entities->ref(target_entity_ref);
+          const auto & target_entity = global().entities->ref(target_entity_ref.name());
           if (target_entity.template is<ScenarioObject>()) {
             return is_relative_clearance_exist(
               triggering_scenario_object, target_entity.template as<ScenarioObject>().name);
-- 
2.43.0


From caf23857e5ddf9e692f6faa441b1afefddb79e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 42/59] fix: exclude every triggering entity from the targets
 of a RelativeClearanceCondition

TriggeringEntities::apply stops as soon as its rule is decided, so that with the rule 'any' only the first one was excluded.
---
 .../src/syntax/relative_clearance_condition.cpp     | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
index 96b68f2..2bab055 100644
--- a/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/relative_clearance_condition.cpp
@@ -178,16 +178,13 @@ auto RelativeClearanceCondition::evaluate() -> Object
             // exclude entities included in TriggeringEntities
             auto is_target_candidate_scenario_object_in_triggering_entities =
               [&](const ScenarioObject & target_candidate) -> bool {
-              bool is_included = false;
-              triggering_entities.apply(
-                [target_candidate, &is_included](const auto & triggering_scenario_object) {
+              // not TriggeringEntities::apply, which visits only as many as its rule needs
+              return std::any_of(
+                triggering_entities.entity_refs.begin(), triggering_entities.entity_refs.end(),
+                [&](const auto & triggering_scenario_object) {
                   assert(triggering_scenario_object.template is<ScenarioObject>());
-                  if (triggering_scenario_object.name() == target_candidate.name) {
-                    is_included = true;
-                  }
-                  return true;
+                  return triggering_scenario_object.name() == target_candidate.name;
                 });
-              return is_included;
             };
             if (is_target_candidate_scenario_object_in_triggering_entities(
                   target_candidate_scenario_object)) {
-- 
2.43.0


From 187bdf960cd1a1aa5cb9ac66b70a30b3d48d3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 43/59] fix: apply a detected state given for a regulatory
 element to every traffic light it refers to

---
 .../traffic_lights/traffic_lights.hpp               | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 8d83327..aea1479 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -71,13 +71,20 @@ public:
 
   auto addState(const lanelet::Id lanelet_id, const std::string & state) -> void
   {
-    auto [iter, inserted] = detected_traffic_lights_.try_emplace(lanelet_id, lanelet_id);
-    iter->second.set(state);
+    for (const auto traffic_light_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+      auto [iter, inserted] =
+        detected_traffic_lights_.try_emplace(traffic_light_id, traffic_light_id);
+      iter->second.set(state);
+    }
   }
 
   auto clearState(const lanelet::Id lanelet_id) -> bool
   {
-    return detected_traffic_lights_.erase(lanelet_id) > 0;
+    auto is_cleared = false;
+    for (const auto traffic_light_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+      is_cleared |= detected_traffic_lights_.erase(traffic_light_id) > 0;
+    }
+    return is_cleared;
   }
 
   auto empty() const -> bool { return detected_traffic_lights_.empty(); }
-- 
2.43.0


From 13bc2439cafd46b6e91d1cf9b6d2d13f2bb50050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 44/59] fix: sum up the durations of phases without dropping
 fractions of a second

---
 .../src/syntax/traffic_signal_controller.cpp                 | 2 +-
 .../openscenario_interpreter/src/syntax/traffic_signals.cpp  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index e40ead1..aacbf40 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -100,7 +100,7 @@ auto TrafficSignalController::currentPhaseSince() const -> double
 auto TrafficSignalController::cycleTime() const -> double
 {
   return std::accumulate(
-    std::cbegin(phases), std::cend(phases), 0,
+    std::cbegin(phases), std::cend(phases), 0.0,
     [](const auto & sum, const auto & phase) { return sum + phase.duration; });
 }
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
index 855b03d..9949ab4 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signals.cpp
@@ -14,6 +14,7 @@
 
 #include <openscenario_interpreter/error.hpp>
 #include <openscenario_interpreter/reader/element.hpp>
+#include <cmath>
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/traffic_signals.hpp>
 
@@ -48,7 +49,9 @@ auto TrafficSignals::resolve_reference(Scope & scope) -> void
     if (not each->reference.empty()) {
       try {
         auto & reference = scope.ref<TrafficSignalController>(each->reference);
-        if (each->cycleTime() != reference.cycleTime()) {
+        // NOTE: Sums of the same durations in another order may differ slightly.
+        constexpr auto tolerance = 1e-6;
+        if (std::abs(each->cycleTime() - reference.cycleTime()) > tolerance) {
           THROW_SEMANTIC_ERROR(
             "The cycle time of ", each->name, "(", each->cycleTime(), " sec) and ", each->reference,
             "(", reference.cycleTime(), " sec) is different");
-- 
2.43.0


From 4912017d0c7fac4cf7fe7bd6a5d9302daa12ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 45/59] fix: tell no phase of a TrafficSignalController that
 has not started yet

---
 .../src/syntax/traffic_signal_controller.cpp                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index aacbf40..3e5c2e9 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -89,7 +89,8 @@ auto TrafficSignalController::currentPhaseExceeded() const -> bool
 
 auto TrafficSignalController::currentPhaseName() const -> const String &
 {
-  return (*current_phase).name;
+  static const String not_started = "";
+  return current_phase != std::end(phases) ? (*current_phase).name : not_started;
 }
 
 auto TrafficSignalController::currentPhaseSince() const -> double
-- 
2.43.0


From 466a0627b290a3a5b1715a4235f41260a548c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 46/59] fix: predict states of traffic lights that consist of
 several bulbs

---
 .../src/traffic_lights/traffic_lights.cpp           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
index edc1a5e..946b9b0 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
@@ -83,7 +83,12 @@ auto V2ITrafficLights::addTrafficLightsStatePrediction(
     auto & predictions_for_current_traffic_light = predictions_[way_id];
 
     // state string -> proto
-    auto bulb_proto = static_cast<simulation_api_schema::TrafficLight>(TrafficLight::Bulb(state));
+    TrafficLight predicted_traffic_light(way_id);
+    predicted_traffic_light.set(state);
+    std::vector<simulation_api_schema::TrafficLight> bulb_protos;
+    for (const auto & bulb : predicted_traffic_light.bulbs) {
+      bulb_protos.push_back(static_cast<simulation_api_schema::TrafficLight>(bulb));
+    }
 
     auto existing_prediction = std::find_if(
       predictions_for_current_traffic_light.begin(), predictions_for_current_traffic_light.end(),
@@ -95,10 +100,10 @@ auto V2ITrafficLights::addTrafficLightsStatePrediction(
 
     if (existing_prediction != predictions_for_current_traffic_light.end()) {
       // merge if exist
-      existing_prediction->second.push_back(bulb_proto);
+      existing_prediction->second.insert(
+        existing_prediction->second.end(), bulb_protos.begin(), bulb_protos.end());
     } else {
-      predictions_for_current_traffic_light.emplace_back(
-        predicted_time, std::vector<simulation_api_schema::TrafficLight>{bulb_proto});
+      predictions_for_current_traffic_light.emplace_back(predicted_time, bulb_protos);
     }
   }
 }
-- 
2.43.0


From 4c17c0a472760a6658ec60ea978cd574e88d4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 47/59] fix: pass states given for a regulatory element on to
 the V2I feature of the traffic lights it refers to

---
 .../src/traffic_lights/traffic_lights_base.cpp            | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights_base.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights_base.cpp
index 0b30bb6..46f0998 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights_base.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights_base.cpp
@@ -152,9 +152,11 @@ auto TrafficLightsBase::registerStateChangeCallback(StateChangeCallback callback
 auto TrafficLightsBase::notifyStateChange(
   const lanelet::Id lanelet_id, const std::string & state, StateChangeType change_type) -> void
 {
-  for (const auto & callback : state_change_callbacks_) {
-    if (callback) {
-      callback(lanelet_id, state, change_type);
+  for (const auto traffic_light_id : traffic_lights::trafficLightsIds(lanelet_id)) {
+    for (const auto & callback : state_change_callbacks_) {
+      if (callback) {
+        callback(traffic_light_id, state, change_type);
+      }
     }
   }
 }
-- 
2.43.0


From fd8ae4f82931bc9fff37fa992baee3fd47b1e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 48/59] fix: predict what the V2I channel is going to show

---
 .../src/syntax/traffic_signal_controller.cpp  | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index 3e5c2e9..e8a4f7f 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -16,6 +16,7 @@
 #include <openscenario_interpreter/reader/element.hpp>
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/traffic_signal_controller.hpp>
+#include <traffic_simulator/utils/traffic_lights.hpp>
 
 namespace openscenario_interpreter
 {
@@ -155,25 +156,40 @@ auto TrafficSignalController::updatePredictions() -> void
     std::unordered_map<lanelet::Id, std::vector<std::string>> current_states;
 
     auto collect_states = [](const Phase & phase) {
-      std::unordered_map<lanelet::Id, std::vector<std::string>> states;
+      // NOTE: Signals may be given as regulatory elements, whereas channels are per traffic light.
+      std::unordered_map<lanelet::Id, std::vector<std::string>> states, detected_states;
       std::set<lanelet::Id> v2i_ids;
 
       for (const auto & signal : phase.traffic_signal_states) {
         if (signal.channelType() == TrafficSignalState::TrafficSignalChannelType::v2i) {
-          states[signal.id()].push_back(signal.state);
-          v2i_ids.insert(signal.id());
+          for (const auto id : traffic_simulator::traffic_lights::trafficLightsIds(signal.id())) {
+            if (signal.isDetected()) {
+              detected_states[id].push_back(signal.state);
+            } else {
+              states[id].push_back(signal.state);
+              v2i_ids.insert(id);
+            }
+          }
         }
       }
 
       for (const auto & signal : phase.traffic_signal_states) {
-        if (signal.channelType() == TrafficSignalState::TrafficSignalChannelType::conventional) {
-          const auto & id = signal.id();
-          if (v2i_ids.count(id) == 0 && isV2ITrafficLightEnabled(id)) {
-            states[id].push_back(signal.state);
+        if (
+          signal.channelType() == TrafficSignalState::TrafficSignalChannelType::conventional and
+          not signal.isDetected()) {
+          for (const auto id : traffic_simulator::traffic_lights::trafficLightsIds(signal.id())) {
+            if (v2i_ids.count(id) == 0 && isV2ITrafficLightEnabled(id)) {
+              states[id].push_back(signal.state);
+            }
           }
         }
       }
 
+      // Detected states override the ground truth
+      for (auto & [id, detected] : detected_states) {
+        states[id] = std::move(detected);
+      }
+
       return states;
     };
 
-- 
2.43.0


From a8e3fad752e909135451cb7208d9c904aadf315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:16 +0000
Subject: [PATCH 49/59] fix: keep the predictions for signals of other
 TrafficSignalControllers

---
 .../src/syntax/traffic_signal_controller.cpp               | 7 ++++++-
 .../traffic_simulator/traffic_lights/traffic_lights.hpp    | 2 +-
 .../src/traffic_lights/traffic_lights.cpp                  | 7 ++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index e8a4f7f..d00171a 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -138,7 +138,12 @@ auto TrafficSignalController::shouldChangePhaseToBegin() -> bool
 auto TrafficSignalController::updatePredictions() -> void
 {
   if (current_phase != std::end(phases)) {
-    clearV2ITrafficLightsStatePredictions();
+    // NOTE: Predictions for signals of other controllers stay valid.
+    for (const auto & phase : phases) {
+      for (const auto & signal : phase.traffic_signal_states) {
+        clearV2ITrafficLightsStatePredictions(signal.id());
+      }
+    }
 
     /*
       NOTE:
diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index aea1479..1de4ee8 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -136,7 +136,7 @@ public:
   auto addTrafficLightsStatePrediction(
     const lanelet::Id lanelet_id, const std::string & state, double time_ahead_seconds) -> void;
 
-  auto clearTrafficLightsStatePredictions() -> void;
+  auto clearTrafficLightsStatePredictions(const lanelet::Id lanelet_id) -> void;
 
 private:
   auto update() const -> void override
diff --git a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
index 946b9b0..bb9b10f 100644
--- a/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
+++ b/simulation/traffic_simulator/src/traffic_lights/traffic_lights.cpp
@@ -108,5 +108,10 @@ auto V2ITrafficLights::addTrafficLightsStatePrediction(
   }
 }
 
-auto V2ITrafficLights::clearTrafficLightsStatePredictions() -> void { predictions_.clear(); }
+auto V2ITrafficLights::clearTrafficLightsStatePredictions(const lanelet::Id lanelet_id) -> void
+{
+  for (const auto way_id : traffic_simulator::traffic_lights::trafficLightsIds(lanelet_id)) {
+    predictions_.erase(way_id);
+  }
+}
 }  // namespace traffic_simulator
-- 
2.43.0


From 0e97e4fb79625ba7e67522e8452708bb3ff442b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 50/59] fix: keep a pose matched at the end of a lanelet within
 the lanelet

---
 simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
index 789f610..fa966a4 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/pose.cpp
@@ -11,6 +11,7 @@
 // WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 // See the License for the specific language governing permissions and
 // limitations under the License.
+#include <algorithm>
 #include <geometry/quaternion/euler_to_quaternion.hpp>
 #include <geometry/quaternion/get_rotation.hpp>
 #include <geometry/quaternion/operator.hpp>
@@ -110,9 +111,10 @@ auto toLaneletPose(
           inner_product < 0) {
         lanelet_pose_offset = lanelet_pose_offset * -1;
       }
+      /// @note the spline may be slightly longer than the lanelet, but the pose must not leave it
       return traffic_simulator_msgs::build<LaneletPose>()
         .lanelet_id(lanelet_id)
-        .s(lanelet_pose_s.value())
+        .s(std::min(lanelet_pose_s.value(), lanelet_map::laneletLength(lanelet_id)))
         .offset(lanelet_pose_offset)
         .rpy(lanelet_pose_rpy);
     }
-- 
2.43.0


From 10b9ec1af45317471b521a0232b515f4d6910a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:37 +0000
Subject: [PATCH 51/59] fix: match the lanelet again when an entity is set to a
 map pose

---
 simulation/traffic_simulator/src/entity/entity_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulation/traffic_simulator/src/entity/entity_base.cpp b/simulation/traffic_simulator/src/entity/entity_base.cpp
index 3711e1a..2e9541e 100644
--- a/simulation/traffic_simulator/src/entity/entity_base.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_base.cpp
@@ -594,6 +594,7 @@ auto EntityBase::setStatus(
 {
   auto status = static_cast<EntityStatus>(getCanonicalizedStatus());
   status.pose = map_pose;
+  status.lanelet_pose_valid = false;  // NOTE: The lanelet pose so far does not belong to map_pose.
   status.action_status = action_status;
   setStatus(status);
 }
-- 
2.43.0


From 76d52928ee6e2eedba03457f85d0c169de69ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 52/59] fix: keep the limits of a speed change that replaces
 another one

---
 .../traffic_simulator/src/entity/entity_base.cpp     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simulation/traffic_simulator/src/entity/entity_base.cpp b/simulation/traffic_simulator/src/entity/entity_base.cpp
index 2e9541e..2fbcd9f 100644
--- a/simulation/traffic_simulator/src/entity/entity_base.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_base.cpp
@@ -232,7 +232,7 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
     }
     case speed_change::Transition::AUTO: {
       if (speed_planner_->isAccelerating(target_speed, getCurrentTwist())) {
-        setAccelerationLimit(std::abs(acceleration));
+        // NOTE: Appending the job resets the limit of the previous one.
         job_list_.append(
           /**
            * @brief Checking if the entity reaches target speed.
@@ -243,8 +243,9 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
            */
           [this]() { resetDynamicConstraints(); }, job::Type::LINEAR_ACCELERATION, true,
           job::Event::POST_UPDATE);
+        setAccelerationLimit(std::abs(acceleration));
       } else if (speed_planner_->isDecelerating(target_speed, getCurrentTwist())) {
-        setDecelerationLimit(std::abs(acceleration));
+        // NOTE: Appending the job resets the limit of the previous one.
         job_list_.append(
           /**
            * @brief Checking if the entity reaches target speed.
@@ -255,6 +256,7 @@ void EntityBase::requestSpeedChangeWithConstantAcceleration(
            */
           [this]() { resetDynamicConstraints(); }, job::Type::LINEAR_ACCELERATION, true,
           job::Event::POST_UPDATE);
+        setDecelerationLimit(std::abs(acceleration));
       }
       requestSpeedChange(target_speed, continuous);
       break;
@@ -289,9 +291,10 @@ void EntityBase::requestSpeedChangeWithTimeConstraint(
       break;
     }
     case speed_change::Transition::AUTO: {
-      setDynamicConstraints(speed_planner_->planConstraintsFromJerkAndTimeConstraint(
+      const auto constraints = speed_planner_->planConstraintsFromJerkAndTimeConstraint(
         target_speed, getCurrentTwist(), getCurrentAccel(), acceleration_time,
-        getDynamicConstraints()));
+        getDynamicConstraints());
+      // NOTE: Appending the job resets the constraints of the previous one.
       job_list_.append(
         /**
          * @brief Checking if the entity reaches target speed.
@@ -309,6 +312,7 @@ void EntityBase::requestSpeedChangeWithTimeConstraint(
          */
         [this]() { resetDynamicConstraints(); }, job::Type::LINEAR_ACCELERATION, true,
         job::Event::POST_UPDATE);
+      setDynamicConstraints(constraints);
       requestSpeedChange(target_speed, false);
       break;
     }
-- 
2.43.0


From f55bc0904d65fe2fe7c5cb233e545f668033126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 53/59] fix: let a deleted entity be added again

---
 .../syntax/delete_entity_action.hpp                      | 9 ++++-----
 .../src/syntax/delete_entity_action.cpp                  | 8 ++++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
index e27ad6d..a906999 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/delete_entity_action.hpp
@@ -15,8 +15,10 @@
 #ifndef OPENSCENARIO_INTERPRETER__SYNTAX__DELETE_ENTITY_ACTION_HPP_
 #define OPENSCENARIO_INTERPRETER__SYNTAX__DELETE_ENTITY_ACTION_HPP_
 
+#include <openscenario_interpreter/scope.hpp>
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/entity_ref.hpp>
+#include <pugixml.hpp>
 
 namespace openscenario_interpreter
 {
@@ -27,12 +29,9 @@ inline namespace syntax
  *  <xsd:complexType name="DeleteEntityAction"/>
  *
  * -------------------------------------------------------------------------- */
-struct DeleteEntityAction : private SimulatorCore::ActionApplication
+struct DeleteEntityAction : private Scope, private SimulatorCore::ActionApplication
 {
-  template <typename... Ts>
-  explicit DeleteEntityAction(Ts &&...)
-  {
-  }
+  explicit DeleteEntityAction(const pugi::xml_node &, Scope &);
 
   auto operator()(const EntityRef &) const -> void;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp b/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
index 60b346a..606d869 100644
--- a/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/delete_entity_action.cpp
@@ -14,14 +14,22 @@
 
 #include <openscenario_interpreter/simulator_core.hpp>
 #include <openscenario_interpreter/syntax/delete_entity_action.hpp>
+#include <openscenario_interpreter/syntax/entities.hpp>
+#include <openscenario_interpreter/syntax/scenario_object.hpp>
 
 namespace openscenario_interpreter
 {
 inline namespace syntax
 {
+DeleteEntityAction::DeleteEntityAction(const pugi::xml_node &, Scope & scope) : Scope(scope) {}
+
 auto DeleteEntityAction::operator()(const EntityRef & entity_ref) const -> void
 {
   applyDeleteEntityAction(entity_ref);
+
+  if (auto object = global().entities->ref(entity_ref); object.is<ScenarioObject>()) {
+    object.as<ScenarioObject>().is_added = false;
+  }
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From 71e8f2874a0a9d40afee158a4000bb2cf94a50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 54/59] fix: give each entity of a selection its own trajectory

---
 .../include/openscenario_interpreter/simulator_core.hpp    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
index bd7cdd7..9aaa4e3 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/simulator_core.hpp
@@ -501,8 +501,11 @@ public:
       traffic_simulator_msgs::msg::Vertex initial_vertex;
       initial_vertex.time = std::numeric_limits<double>::quiet_NaN();
       initial_vertex.position = core->getEntity(entity_ref).getMapPose();
-      parameter->shape.vertices.insert(parameter->shape.vertices.begin(), initial_vertex);
-      return core->getEntity(entity_ref).requestFollowTrajectory(parameter);
+      /// @note the parameter is shared by the entities the action is applied to
+      const auto trajectory =
+        std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>(*parameter);
+      trajectory->shape.vertices.insert(trajectory->shape.vertices.begin(), initial_vertex);
+      return core->getEntity(entity_ref).requestFollowTrajectory(trajectory);
     }
 
     template <typename... Ts>
-- 
2.43.0


From 35c62801f2dae9fcc1616aa76ff609bbcc492723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 55/59] fix: keep the target speed of a request that replaces
 another one

---
 simulation/traffic_simulator/src/entity/entity_base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/entity/entity_base.cpp b/simulation/traffic_simulator/src/entity/entity_base.cpp
index 2fbcd9f..896bffc 100644
--- a/simulation/traffic_simulator/src/entity/entity_base.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_base.cpp
@@ -466,7 +466,6 @@ void EntityBase::requestSpeedChange(const double target_speed, const bool contin
     return;
   }
   if (continuous) {
-    target_speed_ = target_speed;
     job_list_.append(
       /**
        * @brief If the target entity reaches the target speed, return true.
@@ -479,8 +478,9 @@ void EntityBase::requestSpeedChange(const double target_speed, const bool contin
        * @brief Cancel speed change request.
        */
       []() {}, job::Type::LINEAR_VELOCITY, true, job::Event::POST_UPDATE);
-  } else {
+    // NOTE: Appending the job resets the target speed of the previous one.
     target_speed_ = target_speed;
+  } else {
     job_list_.append(
       /**
        * @brief If the target entity reaches the target speed, return true.
@@ -497,6 +497,8 @@ void EntityBase::requestSpeedChange(const double target_speed, const bool contin
        */
       [this]() { target_speed_ = std::nullopt; }, job::Type::LINEAR_VELOCITY, true,
       job::Event::POST_UPDATE);
+    // NOTE: Appending the job resets the target speed of the previous one.
+    target_speed_ = target_speed;
   }
 }
 
-- 
2.43.0


From 2db3de797de5986c95a65fe65bc0086c2f87481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 56/59] fix: tolerate rounding in the acceleration limits of a
 trajectory follower

---
 .../src/behavior/follow_waypoint_controller.cpp            | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
index 44b8403..a3195d5 100644
--- a/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_waypoint_controller.cpp
@@ -162,7 +162,7 @@ auto FollowWaypointController::getAccelerationLimits(
   const auto max_acceleration_target_speed =
     accelerationWithJerkConstraint(speed, target_speed, max_acceleration_rate);
 
-  const auto local_min_acceleration = std::max(
+  auto local_min_acceleration = std::max(
     std::max(min_acceleration_zero_speed, -max_deceleration),
     acceleration - max_deceleration_rate * step_time);
   const auto local_max_acceleration = std::min(
@@ -180,7 +180,8 @@ auto FollowWaypointController::getAccelerationLimits(
       In such cases, local_min_acceleration (needed to reach acceleration equal to 0.0 at speed 0.0) can be equal to local_max_acceleration
       (the maximum increase allowed by max_acceleration_rate constraint).
   */
-  if (local_max_acceleration + local_epsilon < local_min_acceleration - local_epsilon) {
+  constexpr double limit_tolerance = 1e-9;
+  if (local_max_acceleration + limit_tolerance < local_min_acceleration) {
     throw ControllerError(
       "Contradictory acceleration limits: local_max_acceleration (", local_max_acceleration,
       ") < local_min_acceleration (", local_min_acceleration,
@@ -188,6 +189,8 @@ auto FollowWaypointController::getAccelerationLimits(
       " for acceleration: ", acceleration, " and speed: ", speed, ". Target speed: ", target_speed,
       ". ", *this);
   }
+  /// @note a difference within the tolerance comes from rounding, there is no choice in this case
+  local_min_acceleration = std::min(local_min_acceleration, local_max_acceleration);
 
   const double min_speed = speed + local_min_acceleration * step_time;
   const double max_speed = speed + local_max_acceleration * step_time;
-- 
2.43.0


From 1a041290e7ea1142aa7378e1404216ca18b413ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:21 +0000
Subject: [PATCH 57/59] fix: refuse invalid input of a trajectory follower
 instead of hanging

---
 .../traffic_simulator/src/behavior/follow_trajectory.cpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp b/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
index 345193a..d0c5b6e 100644
--- a/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
+++ b/simulation/traffic_simulator/src/behavior/follow_trajectory.cpp
@@ -866,6 +866,10 @@ auto makeUpdatedStatus(
     // clang-format on
   }
 
+  /// @note the controller never comes to an end with NaN or infinity
+  validate_entity_status();
+  validate_trajectory();
+
   if (is_target_waypoint_final()) {
     return handle_final_waypoint(
       distance_to_target_waypoint(), remaining_time_to_target_waypoint());
-- 
2.43.0


From 0d7b540b4e1497aaf1a1025a3f09c32821288629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:45 +0000
Subject: [PATCH 58/59] fix: keep the status of an entity whose behavior plugin
 is reset

The status was read through a reference into the entity that had just been despawned.
---
 simulation/traffic_simulator/src/entity/entity_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/entity/entity_manager.cpp b/simulation/traffic_simulator/src/entity/entity_manager.cpp
index 4b494a5..a93d356 100644
--- a/simulation/traffic_simulator/src/entity/entity_manager.cpp
+++ b/simulation/traffic_simulator/src/entity/entity_manager.cpp
@@ -329,7 +329,7 @@ auto EntityManager::resetBehaviorPlugin(
   const std::string & name, const std::string & behavior_plugin_name) -> void
 {
   const auto & reference_entity = getEntity(name);
-  const auto & status = reference_entity.getCanonicalizedStatus();
+  const auto status = reference_entity.getCanonicalizedStatus();  // the entity is about to be destroyed
   const auto behavior_parameter = reference_entity.getBehaviorParameter();
   if (reference_entity.is<EgoEntity>()) {
     THROW_SEMANTIC_ERROR(
-- 
2.43.0


From c1e1beffd6e5d2bf7bda76abea14933a0f8a3cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:45 +0000
Subject: [PATCH 59/59] fix: keep the entities of a traffic source inside its
 area

The corners of an entity were compared with its own position, which shadows that of the source.
---
 simulation/traffic_simulator/src/traffic/traffic_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/traffic/traffic_source.cpp b/simulation/traffic_simulator/src/traffic/traffic_source.cpp
index 1fa23cb..12d7983 100644
--- a/simulation/traffic_simulator/src/traffic/traffic_source.cpp
+++ b/simulation/traffic_simulator/src/traffic/traffic_source.cpp
@@ -161,7 +161,7 @@ auto TrafficSource::isPoseValid(
 
     return std::all_of(corners.begin(), corners.end(), [&](const auto & corner) {
       /// @note 2D validation - does not account for height
-      return std::hypot(corner.x - pose.position.x, corner.y - pose.position.y) <
+      return std::hypot(corner.x - this->pose.position.x, corner.y - this->pose.position.y) <
              radius_distribution_.max();
     });
   };
-- 
2.43.0

