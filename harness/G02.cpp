// Rotations, orientations and rigid transforms.
#include <geometry/quaternion/direction_to_quaternion.hpp>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/quaternion/get_angle_difference.hpp>
#include <geometry/quaternion/get_normal_vector.hpp>
#include <geometry/quaternion/get_rotation.hpp>
#include <geometry/quaternion/get_rotation_matrix.hpp>
#include <geometry/quaternion/is_like_quaternion.hpp>
#include <geometry/quaternion/make_quaternion.hpp>
#include <geometry/quaternion/norm.hpp>
#include <geometry/quaternion/normalize.hpp>
#include <geometry/quaternion/operator.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/quaternion/slerp.hpp>
#include <geometry/transform.hpp>

#include "geo.hpp"
using namespace geo;
namespace mg = math::geometry;

static_assert(mg::IsLikeQuaternion<Quat>::value && !mg::IsLikeQuaternion<Point>::value);

double turn(const Quat & a, const Quat & b)  // largest displacement of a unit vector between two rotations
{
  double worst = 0;
  for (const V3 & e : {V3{1, 0, 0}, V3{0, 1, 0}, V3{0, 0, 1}}) {
    worst = std::max(worst, static_cast<double>(len(rotate(a, e) - rotate(b, e))));
  }
  return worst;
}
V3 rx(LD t, V3 v) { return {v[0], std::cos(t) * v[1] - std::sin(t) * v[2], std::sin(t) * v[1] + std::cos(t) * v[2]}; }
V3 ry(LD t, V3 v) { return {std::cos(t) * v[0] + std::sin(t) * v[2], v[1], -std::sin(t) * v[0] + std::cos(t) * v[2]}; }
V3 rz(LD t, V3 v) { return {std::cos(t) * v[0] - std::sin(t) * v[1], std::sin(t) * v[0] + std::cos(t) * v[1], v[2]}; }
double wrap(double a) { return std::abs(std::remainder(a, 2 * M_PI)); }

VF_PROP("Euler angles to quaternion and back", 80000, 3000000)
{
  const double roll = angle(s), pitch = angle(s, M_PI / 2), yaw = angle(s);
  c.log << "roll=" << roll << " pitch=" << pitch << " yaw=" << yaw;
  if ((roll != 0) + (pitch != 0) + (yaw != 0) >= 2) c.nontrivial();
  const auto q = mg::convertEulerAngleToQuaternion(vec(roll, pitch, yaw));
  for (const V3 & v : {V3{1, 0, 0}, V3{0, 1, 0}, V3{0, 0, 1}}) {
    const V3 e = rz(yaw, ry(pitch, rx(roll, v)));
    c.require(near(rotate(q, v), e, 1e-12), "axis ", str(v), " goes to ", str(rotate(q, v)), " instead of ", str(e));
  }
  const auto back = mg::convertQuaternionToEulerAngle(q);
  const double gap = M_PI / 2 - std::abs(pitch);
  if (gap > 1e-3) {
    const double tol = 1e-9;
    const auto again = mg::convertEulerAngleToQuaternion(back);
    c.require(turn(q, again) < 1e-9, "the angles ", str(back), " describe another rotation");
    c.require(
      wrap(back.x - roll) < tol && wrap(back.y - pitch) < tol && wrap(back.z - yaw) < tol, "angles came back as ",
      str(back));
  }
}

VF_PROP("quaternion to Euler angles", 60000, 2000000)
{
  const Quat q = genQuat(s);
  c.log << str(q);
  if (q.w != 1) c.nontrivial();
  const auto e = mg::convertQuaternionToEulerAngle(q);
  const V3 x = rotate(q, {1, 0, 0});
  if (std::abs(x[2]) > 0.999999L) return;  // straight up or down: the angles are not unique
  for (const V3 & v : {V3{1, 0, 0}, V3{0, 1, 0}, V3{0, 0, 1}}) {
    const V3 g = rz(e.z, ry(e.y, rx(e.x, v)));
    c.require(near(g, rotate(q, v), 1e-9), "axis ", str(v), " goes to ", str(g), " with the angles ", str(e));
  }
}

VF_PROP("orientation along a direction", 60000, 2000000)
{
  const Vec d = genVec(s);
  c.log << str(d);
  const LD n = len(ld(d));
  if (n < 1e-9) return;
  if (d.z != 0) c.nontrivial();
  const auto q = mg::convertDirectionToQuaternion(d);
  const auto q2 = mg::convertDirectionToQuaternion(d.x, d.y, d.z);
  c.require(q == q2, "the two forms disagree");
  c.require(near(rotate(q, {1, 0, 0}), ld(d) * (1 / n), 1e-9), "forward axis is ", str(rotate(q, {1, 0, 0})));
  // no roll: the lateral axis stays horizontal, the vertical axis points up
  c.require(std::abs(rotate(q, {0, 1, 0})[2]) < 1e-9 && rotate(q, {0, 0, 1})[2] > -1e-9, "the orientation rolls");
}

VF_PROP("quaternion algebra", 80000, 3000000)
{
  const Quat a = genQuat(s), b = genQuat(s);
  const V3 v = ld(genVec(s, 10));
  c.log << str(a) << " " << str(b) << " v=" << str(v);
  if (a.w != 1 && b.w != 1) c.nontrivial();
  using namespace mg;
  const Quat p = a * b;
  c.require(near(rotate(p, v), rotate(a, rotate(b, v)), 1e-11), "the product does not compose the rotations");
  const Quat sum = a + b, dif = a - b;
  c.require(sum == quat(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w), "sum is ", str(sum));
  c.require(dif == quat(a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w), "difference is ", str(dif));
  Quat acc = a;
  auto & ref = (acc += b);
  c.require(acc == sum && &ref == &acc, "compound sum is ", str(acc));
  c.require(turn(a * mg::getRotation(a, b), b) < 1e-12, "the rotation from one to the other does not lead there");
  // general products of unnormalised quaternions
  const double k = s.real(0.01, 100), l = s.real(-100, 100);
  const Quat ka = quat(a.x * k, a.y * k, a.z * k, a.w * k), lb = quat(b.x * l, b.y * l, b.z * l, b.w * l);
  const Quat kl = ka * lb;
  const double t = 1e-12 * (1 + std::abs(k * l));
  c.require(
    std::abs(kl.x - p.x * k * l) < t && std::abs(kl.y - p.y * k * l) < t && std::abs(kl.z - p.z * k * l) < t &&
      std::abs(kl.w - p.w * k * l) < t,
    "the product is not bilinear");
  c.require(vf::close(mg::norm(ka), k, 1e-12, 0), "norm is ", mg::norm(ka), " instead of ", k);
  const Quat u = mg::normalize(ka);
  c.require(
    std::abs(u.x - a.x) < 1e-12 && std::abs(u.y - a.y) < 1e-12 && std::abs(u.z - a.z) < 1e-12 && std::abs(u.w - a.w) < 1e-12,
    "normalized quaternion is ", str(u));
  VF_THROWS(common::SimulationError, mg::normalize(quat(0, 0, 0, s.uniform(0, 2e-16))));
  c.require(mg::makeQuaternion(a.x, a.y, a.z, a.w) == a, "made quaternion differs");
}

VF_PROP("rotation matrix and normal vector", 60000, 2000000)
{
  const Quat q = genQuat(s);
  const V3 v = ld(genVec(s, 10));
  c.log << str(q) << " v=" << str(v);
  if (q.w != 1) c.nontrivial();
  const Eigen::Matrix3d m = mg::getRotationMatrix(q);
  const Eigen::Vector3d r = m * Eigen::Vector3d(v[0], v[1], v[2]);
  c.require(near(V3{r(0), r(1), r(2)}, rotate(q, v), 1e-11), "the matrix rotates to (", r(0), ", ", r(1), ", ", r(2), ")");
  c.require((m * m.transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-12 && std::abs(m.determinant() - 1) < 1e-12, "the matrix is not a rotation");
  c.require(near(mg::getNormalVector(q), rotate(q, {0, 0, 1}), 1e-12), "normal vector is ", str(mg::getNormalVector(q)));
}

VF_PROP("angle difference", 60000, 2000000)
{
  Quat a = genQuat(s), b = genQuat(s);
  if (s.chance(20)) {
    const double e = s.pick({0.0, 1e-9, 1e-6, 1e-3});
    b = rpyQuat(0, 0, e);
    b = mg::operator*(a, b);
    c.label("nearly equal");
  }
  if (s.boolean()) b = quat(-b.x, -b.y, -b.z, -b.w);
  c.log << str(a) << " " << str(b);
  if (turn(a, b) > 0) c.nontrivial();
  const Quat r = mg::operator*(quat(-a.x, -a.y, -a.z, a.w), b);
  const double expected = 2 * std::atan2(std::hypot(r.x, r.y, r.z), std::abs(r.w));
  const double got = mg::getAngleDifference(a, b);
  c.require(std::abs(got - expected) < 1e-9, "angle is ", got, " instead of ", expected);
  c.require(std::abs(mg::getAngleDifference(b, a) - got) < 1e-9, "the angle is not symmetric");
}

VF_PROP("spherical interpolation", 80000, 3000000)
{
  const Quat a = genQuat(s);
  Quat b = genQuat(s);
  if (s.chance(30)) {
    b = mg::operator*(a, rpyQuat(s.real(-1, 1) * s.pick({0.0, 1e-9, 1e-8, 1e-6, 1e-3}), 0, s.real(-1, 1) * s.pick({0.0, 1e-8, 1e-3})));
    c.label("nearly equal");
  }
  const double t = s.pick({0.0, 1.0, 0.5, -1.0}), u = s.unit();
  const double k = t < 0 ? u : t;
  c.log << str(a) << " " << str(b) << " t=" << k;
  const LD d = static_cast<LD>(a.x) * b.x + static_cast<LD>(a.y) * b.y + static_cast<LD>(a.z) * b.z + static_cast<LD>(a.w) * b.w;
  const Quat r = mg::slerp(a, b, k);
  c.require(std::isfinite(r.x) && std::isfinite(r.y) && std::isfinite(r.z) && std::isfinite(r.w), "interpolation gives ", str(r));
  if (d < -1 + 1e-6L) return;  // opposite: every great circle is as short
  if (turn(a, b) > 0 && k > 0 && k < 1) c.nontrivial();
  const auto angle4 = [](const Quat & p, const Quat & q) {  // angle of unit 4-vectors, accurate for small angles
    const LD dx = static_cast<LD>(p.x) - q.x, dy = static_cast<LD>(p.y) - q.y, dz = static_cast<LD>(p.z) - q.z, dw = static_cast<LD>(p.w) - q.w;
    const LD sx = static_cast<LD>(p.x) + q.x, sy = static_cast<LD>(p.y) + q.y, sz = static_cast<LD>(p.z) + q.z, sw = static_cast<LD>(p.w) + q.w;
    return static_cast<double>(2 * std::atan2(std::sqrt(dx * dx + dy * dy + dz * dz + dw * dw), std::sqrt(sx * sx + sy * sy + sz * sz + sw * sw)));
  };
  c.require(std::abs(mg::norm(r) - 1) < 1e-7, "norm of the result is ", mg::norm(r));
  const double theta = angle4(a, b);
  c.require(std::abs(angle4(a, r) - k * theta) < 1e-6, "angle from the start is ", angle4(a, r), " of ", theta, " at ", k);
  c.require(std::abs(angle4(r, b) - (1 - k) * theta) < 1e-6, "angle to the end is ", angle4(r, b), " of ", theta, " at ", k);
}

VF_PROP("relative pose", 60000, 2000000)
{
  const Pose from = genPose(s), to = s.chance(10) ? from : genPose(s);
  c.log << str(from) << " " << str(to);
  if (from.orientation.w != 1) c.nontrivial();
  const Pose rel = mg::getRelativePose(from, to);
  c.require(near(rel.position, unapply(from, ld(to.position)), 1e-9), "relative position is ", str(rel.position), " instead of ", str(unapply(from, ld(to.position))));
  c.require(near(geo::apply(from, ld(rel.position)), ld(to.position), 1e-9), "the relative position does not lead back");
  const Quat q = mg::operator*(from.orientation, rel.orientation);
  c.require(turn(q, to.orientation) < 1e-9, "relative orientation is ", str(rel.orientation));
}

VF_PROP("transformed points", 60000, 2000000)
{
  const Pose pose = genPose(s);
  Pose sensor = genPose(s);
  if (s.boolean()) sensor.orientation = Quat();
  std::vector<Point> points;
  for (std::size_t n = s.length(6); n > 0; --n) points.push_back(genPoint(s));
  c.log << str(pose) << " sensor " << str(sensor) << " points";
  for (const auto & p : points) c.log << " " << str(p);
  if (points.size() > 1 && pose.orientation.w != 1) c.nontrivial();
  const auto world = mg::transformPoints(pose, points);
  const auto seen = mg::transformPoints(pose, sensor, points);
  c.require(world.size() == points.size() && seen.size() == points.size(), "the number of points changed");
  for (std::size_t i = 0; i < points.size(); ++i) {
    const V3 w = geo::apply(pose, ld(points[i]));
    c.require(near(world[i], w, 1e-9), "point ", i, " goes to ", str(world[i]), " instead of ", str(w));
    c.require(mg::transformPoint(pose, points[i]) == world[i] && mg::transformPoint(pose, sensor, points[i]) == seen[i], "single and multiple point transforms disagree");
    if (sensor.orientation == Quat()) {
      c.require(near(seen[i], w - ld(sensor.position), 1e-9), "point ", i, " is seen at ", str(seen[i]));
    }
  }
  // distances do not change
  for (std::size_t i = 1; i < points.size(); ++i) {
    c.require(std::abs(len(ld(points[i]) - ld(points[i - 1])) - len(ld(world[i]) - ld(world[i - 1]))) < 1e-9, "the transform is not rigid");
  }
}
