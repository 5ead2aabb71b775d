// One cubic Hermite curve: shape, arc length, curvature, crossings with lines.
#include <algorithm>
#include <geometry/spline/hermite_curve.hpp>

#include "curve.hpp"
using namespace geo;
using math::geometry::HermiteCurve;

struct Input
{
  Pose start, goal;
  Vec v0, v1;
  Cubic ref;
};
// gentle: a road-like curve; otherwise anything, loops and cusps included
Input gen(vf::Src & s, vf::Case & c, bool gentle)
{
  Input in;
  if (gentle) {
    const double yaw = angle(s), len = s.real(1, 80), turn = s.uniform(-1, 1);
    in.start.position = genPoint(s);
    const double mid = yaw + turn / 2;
    in.goal.position = point(
      in.start.position.x + len * std::cos(mid), in.start.position.y + len * std::sin(mid),
      in.start.position.z + s.real(-2, 2));
    in.v0 = vec(len * std::cos(yaw), len * std::sin(yaw), s.real(-1, 1));
    in.v1 = vec(len * std::cos(yaw + turn), len * std::sin(yaw + turn), s.real(-1, 1));
    in.start.orientation = rpyQuat(0, 0, yaw);
    in.goal.orientation = rpyQuat(0, 0, yaw + turn);
  } else {
    in.start = genPose(s, 50);
    in.goal = genPose(s, 50);
    in.v0 = genVec(s, 80);
    in.v1 = genVec(s, 80);
  }
  c.log << "start " << str(in.start.position) << " goal " << str(in.goal.position) << " v0 " << str(in.v0) << " v1 " << str(in.v1);
  const V3 p0 = ld(in.start.position), p1 = ld(in.goal.position), m0 = ld(in.v0), m1 = ld(in.v1);
  for (int i = 0; i < 3; ++i) {
    in.ref.c[i][0] = 2 * p0[i] - 2 * p1[i] + m0[i] + m1[i];
    in.ref.c[i][1] = -3 * p0[i] + 3 * p1[i] - 2 * m0[i] - m1[i];
    in.ref.c[i][2] = m0[i];
    in.ref.c[i][3] = p0[i];
  }
  return in;
}
HermiteCurve make(vf::Src & s, const Input & in)
{
  if (s.boolean()) return HermiteCurve(in.start, in.goal, in.v0, in.v1);
  const auto & k = in.ref.c;
  const auto d = [](LD x) { return static_cast<double>(x); };
  return HermiteCurve(
    d(k[0][0]), d(k[0][1]), d(k[0][2]), d(k[0][3]), d(k[1][0]), d(k[1][1]), d(k[1][2]), d(k[1][3]), d(k[2][0]), d(k[2][1]),
    d(k[2][2]), d(k[2][3]));
}

VF_PROP("points, tangents, normals and poses", 60000, 2000000)
{
  const bool gentle = s.boolean();
  const Input in = gen(s, c, gentle);
  const HermiteCurve curve = make(s, in);
  const double t = s.pick({0.0, 1.0, 0.5, -1.0}) < 0 ? s.uniform(-0.2, 1.2) : s.real(0, 1);
  const bool denormalize = s.boolean();
  const bool pitch = s.boolean();
  const double L = curve.getLength(), arg = denormalize ? t * L : t;
  c.log << " t=" << t << " " << denormalize << pitch;
  if (L < 1e-6) return;
  c.nontrivial();
  const double tol = 1e-9;
  c.require(near(curve.getPoint(0.0), ld(in.start.position), tol), "the curve starts at ", str(curve.getPoint(0.0)));
  c.require(near(curve.getPoint(1.0), ld(in.goal.position), tol), "the curve ends at ", str(curve.getPoint(1.0)));
  c.require(near(curve.getTangentVector(0.0), ld(in.v0), tol), "the curve leaves along ", str(curve.getTangentVector(0.0)));
  c.require(near(curve.getTangentVector(1.0), ld(in.v1), tol), "the curve arrives along ", str(curve.getTangentVector(1.0)));
  const V3 p = in.ref.at(t), d = in.ref.d1(t);
  c.require(near(curve.getPoint(arg, denormalize), p, tol), "point is ", str(curve.getPoint(arg, denormalize)), " instead of ", str(p));
  c.require(near(curve.getTangentVector(arg, denormalize), d, tol), "tangent is ", str(curve.getTangentVector(arg, denormalize)), " instead of ", str(d));
  const Vec n = curve.getNormalVector(arg, denormalize);
  c.require(near(n, V3{-d[1], d[0], 0}, tol), "normal is ", str(n), " for the tangent ", str(d));
  const Pose pose = curve.getPose(arg, denormalize, pitch);
  c.require(near(pose.position, p, tol), "pose is at ", str(pose.position));
  const V3 dir = pitch ? d : V3{d[0], d[1], 0};
  if (len(dir) > 1e-3 && std::hypot(d[0], d[1]) > 1e-3) {
    c.require(near(rotate(pose.orientation, {1, 0, 0}), dir * (1 / len(dir)), 1e-8), "pose ", str(pose), " does not face ", str(dir));
    c.require(std::abs(rotate(pose.orientation, {0, 1, 0})[2]) < 1e-9, "the pose rolls");
  }
  const Point q = genPoint(s);
  const LD dx = q.x - p[0], dy = q.y - p[1];
  c.require(vf::close(curve.getSquaredDistanceIn2D(q, arg, denormalize), static_cast<double>(dx * dx + dy * dy), 1e-9, 1e-9), "squared distance is ", curve.getSquaredDistanceIn2D(q, arg, denormalize));
  c.require(near(curve.getSquaredDistanceVector(q, arg, denormalize), ld(q) - p, tol), "distance vector is ", str(curve.getSquaredDistanceVector(q, arg, denormalize)));
  // curvature
  const V3 dd = in.ref.d2(t);
  const LD speed2 = d[0] * d[0] + d[1] * d[1];
  if (speed2 > 1e-2L) {
    const LD k = (d[0] * dd[1] - dd[0] * d[1]) / std::pow(speed2, 1.5L);
    c.require(vf::close(curve.get2DCurvature(arg, denormalize), static_cast<double>(k), 1e-7, 1e-9), "curvature is ", curve.get2DCurvature(arg, denormalize), " instead of ", static_cast<double>(k));
  }
}

VF_PROP("arc length, sampled points and largest curvature", 16000, 500000)
{
  const Input in = gen(s, c, s.boolean());
  const HermiteCurve curve = make(s, in);
  LD exact = 0, variation = 0, previous = len(in.ref.d1(0));
  constexpr int N = 1000;
  for (int i = 1; i <= N; ++i) {
    const LD v = len(in.ref.d1(static_cast<LD>(i) / N));
    exact += len(in.ref.d1((i - 0.5L) / N)) / N;
    variation += std::abs(v - previous);
    previous = v;
  }
  c.nontrivial();
  c.require(
    std::abs(curve.getLength() - exact) <= variation / 100 * 1.01L + 1e-4L * exact + 1e-9L, "length is ", curve.getLength(), " but the arc is ",
    static_cast<double>(exact), " long, speed variation ", static_cast<double>(variation));
  const std::size_t steps = s.pick({1000, 10, 200, 37});
  const double finer = curve.getLength(steps);
  c.require(std::abs(finer - exact) <= variation / steps * 1.01L + 1e-4L * exact + 1e-9L, "length in ", steps, " steps is ", finer);
  const std::size_t n = s.length(12);
  const auto points = curve.getTrajectory(n);
  c.require(points.size() == n, n, " points were asked for, got ", points.size());
  for (std::size_t i = 0; i < n; ++i) {
    const LD t = n == 1 ? 0 : static_cast<LD>(i) / (n - 1);
    c.require(near(points[i], in.ref.at(t), 1e-9), "sampled point ", i, " is ", str(points[i]));
  }
  LD worst = 0;
  bool regular = true;
  for (int i = 0; i <= 10; ++i) {
    const V3 d = in.ref.d1(i / 10.0L), dd = in.ref.d2(i / 10.0L);
    const LD v = d[0] * d[0] + d[1] * d[1];
    if (v < 1e-2L) regular = false;
    const LD k = (d[0] * dd[1] - dd[0] * d[1]) / std::pow(v, 1.5L);
    if (std::abs(k) > std::abs(worst)) worst = k;
  }
  if (regular) {
    const double got = curve.getMaximum2DCurvature();
    c.require(vf::close(std::abs(got), static_cast<double>(std::abs(worst)), 1e-6, 1e-7), "largest curvature is ", got, " instead of ", static_cast<double>(worst));
    if (std::abs(worst) > 1e-6L) c.require(vf::close(got, static_cast<double>(worst), 1e-6, 1e-9) || vf::close(-got, static_cast<double>(worst), 1e-9, 0), "sign of the largest curvature: ", got);
  }
}

void genLine(vf::Src & s, const Input & in, Point & a, Point & b)
{
  const V3 at = in.ref.at(s.uniform(-0.1, 1.1));
  const double half = s.pick({3.0, 1.0, 10.0, 30.0});
  switch (s.draw(4)) {
    case 0: {  // horizontal or vertical
      const double o = s.uniform(-1.5, 1.5) * half;
      if (s.boolean()) {
        a = point(static_cast<double>(at[0]) + o - half, static_cast<double>(at[1]));
        b = point(a.x + 2 * half, a.y);
      } else {
        a = point(static_cast<double>(at[0]), static_cast<double>(at[1]) + o - half);
        b = point(a.x, a.y + 2 * half);
      }
      break;
    }
    case 1: {  // as rotated from a heading that is a multiple of 90 degrees: one ulp off the axis
      const double o = s.uniform(-1.5, 1.5) * half, yaw = (static_cast<int>(s.draw(5)) - 2) * M_PI / 2;
      const auto p = [&](double d) { return point(static_cast<double>(at[0]) - d * std::sin(yaw), static_cast<double>(at[1]) + d * std::cos(yaw)); };
      a = p(o - half);
      b = p(o + half);
      break;
    }
    default: {
      const double dir = s.uniform(-M_PI, M_PI), o = s.uniform(-1.5, 1.5) * half;
      const auto p = [&](double d) { return point(static_cast<double>(at[0]) + d * std::cos(dir), static_cast<double>(at[1]) + d * std::sin(dir)); };
      a = p(o - half);
      b = p(o + half);
    }
  }
  a.z = s.real(-5, 5);
}
VF_PROP("crossings with a segment", 40000, 1500000)
{
  const Input in = gen(s, c, s.chance(70));
  const HermiteCurve curve = make(s, in);
  Point a, b;
  genLine(s, in, a, b);
  c.log << " segment " << str(a) << str(b);
  if (curve.getLength() < 1) return;
  const bool backward = s.boolean();
  const auto got = curve.getCollisionPointsIn2D(a, b, backward, false);
  judge(c, in.ref, a, b, got, true);
  const auto far = curve.getCollisionPointsIn2D(a, b, backward, true);
  c.require(far.size() == got.size(), "distances and normalized positions differ in number");
  for (auto i = got.begin(), j = far.begin(); i != got.end(); ++i, ++j) {
    c.require(vf::close(*i * curve.getLength(), *j, 1e-12, 1e-12), "distance ", *j, " for the position ", *i);
  }
  const auto one = curve.getCollisionPointIn2D(a, b, backward, false);
  c.require(one.has_value() == !got.empty(), "single and multiple crossings disagree");
  if (one) {
    c.require(*one == (backward ? *got.rbegin() : *got.begin()), "the ", backward ? "last" : "first", " crossing of ", list(got), " is ", *one);
    const auto d = curve.getCollisionPointIn2D(a, b, backward, true);
    c.require(d && vf::close(*one * curve.getLength(), *d, 1e-12, 1e-12), "distance of the crossing");
  }
}

VF_PROP("crossings with a polygon", 16000, 500000)
{
  const Input in = gen(s, c, s.chance(70));
  const HermiteCurve curve = make(s, in);
  std::vector<Point> polygon;
  Point a, b;
  for (std::size_t n = s.length(5); polygon.size() < n;) {
    genLine(s, in, a, b);
    polygon.push_back(a);
  }
  c.log << " polygon";
  for (const auto & p : polygon) c.log << " " << str(p);
  const bool closed = s.boolean(), backward = s.boolean();
  c.log << " closed " << closed;
  if (curve.getLength() < 1) return;
  const auto got = curve.getCollisionPointsIn2D(polygon, backward, closed, false);
  std::set<double> sum;
  for (std::size_t i = 0; i + 1 < polygon.size(); ++i) {
    sum.merge(curve.getCollisionPointsIn2D(polygon[i], polygon[i + 1], backward, false));
    judge(c, in.ref, polygon[i], polygon[i + 1], got, false);
  }
  if (closed && polygon.size() > 1) {
    sum.merge(curve.getCollisionPointsIn2D(polygon.back(), polygon.front(), backward, false));
    judge(c, in.ref, polygon.back(), polygon.front(), got, false);
  }
  c.require(got == sum, "the crossings of the polygon are ", list(got), ", those of its sides ", list(sum));
  const auto one = curve.getCollisionPointIn2D(polygon, backward, closed, false);
  c.require(one.has_value() == !got.empty(), "single and multiple crossings disagree");
  if (one) c.require(*one == (backward ? *got.rbegin() : *got.begin()), "the ", backward ? "last" : "first", " crossing of ", list(got), " is ", *one);
}

VF_PROP("longitudinal position of a pose", 30000, 1000000)
{
  const Input in = gen(s, c, true);
  const HermiteCurve curve = make(s, in);
  const double t = s.uniform(0.01, 0.99), lateral = s.uniform(-6, 6), threshold = s.pick({3.0, 1.0, 5.0});
  const bool denormalize = s.boolean();
  c.log << " t=" << t << " lateral=" << lateral << " threshold=" << threshold;
  Pose pose = curve.getPose(t, false, s.boolean());
  const V3 beside = apply(pose, {0, lateral, 0});
  pose.position = point(static_cast<double>(beside[0]), static_cast<double>(beside[1]), pose.position.z);
  const auto got = curve.getSValue(pose, threshold, denormalize);
  const double k = denormalize ? curve.getLength() : 1;
  if (std::abs(lateral) < threshold - 1e-3) {
    c.nontrivial();
    c.require(got.has_value(), "no position within ", threshold, " of the pose");
    const V3 local = unapply(pose, in.ref.at(*got / k));
    c.require(std::abs(local[0]) < 1e-2L && std::abs(local[1]) < threshold + 1e-3L, "position ", *got, " is not beside the pose: ", str(local));
    c.require(*got / k <= t + 1e-4, "an earlier position exists at ", t, ", got ", *got / k);
  } else if (got) {
    const V3 local = unapply(pose, in.ref.at(*got / k));
    c.require(std::abs(local[0]) < 1e-2L && std::abs(local[1]) < threshold + 1e-3L, "position ", *got, " is not beside the pose: ", str(local));
  }
}
