// Line segments and their intersections.
#include <geometry/intersection/intersection.hpp>
#include <geometry/polygon/line_segment.hpp>
#include <scenario_simulator_exception/exception.hpp>

#include "geo.hpp"
using namespace geo;
using math::geometry::LineSegment;

bool same(const Point & a, const Point & b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
// on an integer grid everything can be decided exactly
Point gridPoint(vf::Src & s) { return point(s.integer(-6, 6), s.integer(-6, 6), s.integer(-3, 3)); }

VF_PROP("points, poses, normals and distances along a segment", 60000, 2000000)
{
  const Point a = genPoint(s);
  Point b = genPoint(s);
  if (same(a, b)) b.x += 1;
  c.log << str(a) << str(b);
  const V3 d = ld(b) - ld(a);
  const bool by_vector = s.chance(30);
  const LD flat = std::hypot(d[0], d[1]);
  if (by_vector && flat < 1e-3L) return;
  const double wanted = s.real(0.5, 50);
  const LineSegment l = by_vector ? LineSegment(a, vec(static_cast<double>(d[0]), static_cast<double>(d[1]), static_cast<double>(d[2])), wanted) : LineSegment(a, b);
  const V3 e = by_vector ? ld(a) + d * (wanted / flat) : ld(b);
  const V3 dir = e - ld(a);
  const double tol = by_vector ? 1e-8 * (1 + static_cast<double>(len(dir))) : 1e-9;
  c.nontrivial();
  c.require(near(l.start_point, ld(a), 0) && near(l.end_point, e, tol), "segment from ", str(l.start_point), " to ", str(l.end_point));
  c.require(near(l.vector, dir, tol) && near(l.vector_2d, V3{dir[0], dir[1], 0}, tol), "vectors ", str(l.vector), str(l.vector_2d));
  c.require(vf::close(l.length, static_cast<double>(len(dir)), 1e-9, 0) && vf::close(l.length_2d, static_cast<double>(std::hypot(dir[0], dir[1])), 1e-9, 1e-12), "lengths ", l.length, " ", l.length_2d);
  VF_THROWS(common::SimulationError, LineSegment(a, vec(0, 0, s.real(-1, 1)), wanted));
  const bool denormalize = s.boolean(), pitch = s.boolean();
  const double t = s.pick({0.0, 1.0, 0.5, -1.0}) < 0 ? s.uniform(0, 1) : s.real(0, 1), k = denormalize ? std::min(t * l.length, l.length) : t;
  if (!(denormalize && k / l.length > 1)) {
    const V3 p = ld(a) + dir * t;
    c.require(near(l.getPoint(k, denormalize), p, tol + 1e-9), "point ", str(l.getPoint(k, denormalize)), " instead of ", str(p));
    const Pose pose = l.getPose(k, denormalize, pitch);
    c.require(near(pose.position, p, tol + 1e-9), "pose at ", str(pose.position));
    const V3 face = pitch ? dir : V3{dir[0], dir[1], 0};
    if (std::hypot(dir[0], dir[1]) > 1e-2L * len(dir)) {
      c.require(near(rotate(pose.orientation, {1, 0, 0}), face * (1 / len(face)), 1e-6) && std::abs(rotate(pose.orientation, {0, 1, 0})[2]) < 1e-9, "pose ", str(pose), " does not face ", str(face));
    }
    const Point q = genPoint(s);
    c.require(near(l.getSquaredDistanceVector(q, k, denormalize), ld(q) - p, tol + 1e-9), "distance vector");
    const LD dx = q.x - p[0], dy = q.y - p[1];
    c.require(vf::close(l.getSquaredDistanceIn2D(q, k, denormalize), static_cast<double>(dx * dx + dy * dy), 1e-7, 1e-7), "squared distance");
  }
  const double out = s.boolean() ? -s.uniform(1e-6, 2) : 1 + s.uniform(1e-6, 2), far = denormalize ? out * l.length : out;
  VF_THROWS(common::SimulationError, l.getPoint(far, denormalize));
  VF_THROWS(common::SimulationError, l.getPose(far, denormalize, pitch));
  c.require(near(l.getNormalVector(), V3{-dir[1], dir[0], 0}, tol + 1e-9), "normal ", str(l.getNormalVector()));
  if (std::abs(dir[0]) > 1e-9L) {
    c.require(vf::close(l.get2DVectorSlope(), static_cast<double>(dir[1] / dir[0]), by_vector ? 1e-6 : 1e-9, 1e-12), "slope ", l.get2DVectorSlope());
  } else if (dir[0] == 0 && !by_vector) {
    VF_THROWS(common::SimulationError, l.get2DVectorSlope());
  }
}

VF_PROP("relation of points and segments", 80000, 2500000)
{
  // exact: grid points
  const Point a = gridPoint(s);
  Point b = gridPoint(s);
  if (a.x == b.x && a.y == b.y) b.x += 1;
  Point q = gridPoint(s);
  if (s.chance(40)) {  // exactly on the line
    const int m = static_cast<int>(s.integer(-1, 3));
    q = point(a.x + (b.x - a.x) * m / 2, a.y + (b.y - a.y) * m / 2, q.z);
  }
  c.log << str(a) << str(b) << " point " << str(q);
  const LineSegment l(a, b);
  const double cross = (b.x - a.x) * (q.y - a.y) - (b.y - a.y) * (q.x - a.x);
  const bool in = std::min(a.x, b.x) <= q.x && q.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= q.y && q.y <= std::max(a.y, b.y);
  c.require(l.isInBounds2D(q) == in, "in bounds: ", l.isInBounds2D(q));
  c.require(l.relativePointPosition2D(q) == (cross > 0) - (cross < 0), "side ", l.relativePointPosition2D(q), " for ", cross);
  const bool on = in && cross == 0;
  c.require(l.isIntersect2D(q) == on, "on the segment: ", l.isIntersect2D(q));
  for (bool denormalize : {false, true}) {
    const auto k = l.get2DIntersectionSValue(q, denormalize);
    c.require(k.has_value() == on, "a position on the segment");
    if (on) {
      c.nontrivial();
      const double t = std::hypot(q.x - a.x, q.y - a.y) / std::hypot(b.x - a.x, b.y - a.y);
      const double L = static_cast<double>(len(ld(b) - ld(a)));
      c.require(vf::close(*k, denormalize ? t * L : t, 1e-12, 1e-12), "position ", *k, " instead of ", t);
    }
  }
}

struct Hit { bool parallel, collinear; LD t, u; };
Hit solve(const Point & a, const Point & b, const Point & p, const Point & q)
{
  const LD ex = static_cast<LD>(b.x) - a.x, ey = static_cast<LD>(b.y) - a.y, fx = static_cast<LD>(q.x) - p.x, fy = static_cast<LD>(q.y) - p.y, gx = static_cast<LD>(p.x) - a.x, gy = static_cast<LD>(p.y) - a.y;
  const LD det = ex * fy - ey * fx;
  Hit h{det == 0, det == 0 && ex * gy - ey * gx == 0, 0, 0};
  if (det != 0) h.t = (gx * fy - gy * fx) / det, h.u = (gx * ey - gy * ex) / det;
  return h;
}

VF_PROP("intersection of two segments", 100000, 3000000)
{
  const bool grid = s.boolean();
  const auto gen = [&] { return grid ? gridPoint(s) : genPoint(s, 20); };
  const Point a = gen(), p = gen();
  Point b = gen(), q = gen();
  if (a.x == b.x && a.y == b.y) b.x += 1;
  if (p.x == q.x && p.y == q.y) q.y += 1;
  c.log << str(a) << str(b) << " and " << str(p) << str(q);
  const LineSegment l(a, b), m(p, q);
  const Hit h = solve(a, b, p, q);
  bool sure = true, hit = false;
  if (h.parallel) {
    if (!grid && h.collinear) return;
    if (!grid) sure = false;
    if (h.collinear) {
      const auto within = [](const LineSegment & x, const Point & y) {
        return std::min(x.start_point.x, x.end_point.x) <= y.x && y.x <= std::max(x.start_point.x, x.end_point.x) && std::min(x.start_point.y, x.end_point.y) <= y.y && y.y <= std::max(x.start_point.y, x.end_point.y);
      };
      hit = within(l, p) || within(l, q) || within(m, a) || within(m, b);
    }
  } else {
    hit = h.t >= 0 && h.t <= 1 && h.u >= 0 && h.u <= 1;
    if (!grid) {
      const LD sine = std::abs((b.x - a.x) * (q.y - p.y) - (b.y - a.y) * (q.x - p.x)) / (l.length_2d * m.length_2d);
      const auto edge = [](LD v) { return std::abs(v) < 1e-6L || std::abs(v - 1) < 1e-6L; };
      if (sine < 1e-4L || edge(h.t) || edge(h.u) || l.length_2d < 1e-3 || m.length_2d < 1e-3) sure = false;
    }
  }
  if (!sure) return;
  if (hit) c.nontrivial();
  c.require(math::geometry::isIntersect2D(l, m) == hit, "intersecting: ", !hit);
  c.require(l.isIntersect2D(m) == hit && m.isIntersect2D(l) == hit, "intersecting, the other way round");
  if (hit && h.collinear) {
    VF_THROWS(common::SimulationError, math::geometry::getIntersection2D(l, m));
    VF_THROWS(common::SimulationError, l.get2DIntersectionSValue(m));
    return;
  }
  const auto x = math::geometry::getIntersection2D(l, m), y = m.getIntersection2D(l);
  c.require(x.has_value() == hit && y.has_value() == hit, "an intersection point");
  const V3 at = ld(a) + (ld(b) - ld(a)) * h.t;
  if (hit) c.require(near(*x, V3{at[0], at[1], 0}, 1e-6) && near(*y, V3{at[0], at[1], 0}, 1e-6), "intersection at ", str(*x), " instead of ", str(at));
  for (bool denormalize : {false, true}) {
    const auto k = l.get2DIntersectionSValue(m, denormalize);
    c.require(k.has_value() == hit, "a position of the intersection");
    if (hit) {
      c.require(vf::close(*k, static_cast<double>(h.t) * (denormalize ? l.length : 1), 1e-6, 1e-6), "position ", *k, " instead of ", static_cast<double>(h.t));
      c.require(*k >= 0 && *k <= (denormalize ? l.length : 1), "position ", *k, " is off the segment");
    }
  }
}

VF_PROP("longitudinal position of a pose on a segment", 40000, 1000000)
{
  const Point a = genPoint(s), b = genPoint(s);
  const LD ex = b.x - a.x, ey = b.y - a.y, e = std::hypot(ex, ey);
  if (e < 1) return;
  const LineSegment l(a, b);
  const double t = s.uniform(-0.2, 1.2), lateral = s.uniform(-6, 6), threshold = s.pick({3.0, 1.0, 5.0}), turn = s.uniform(-1, 1);
  const double yaw = static_cast<double>(std::atan2(ey, ex)) + turn;
  // the line across the pose meets the segment at t, `lateral` away
  Pose pose;
  pose.position = point(static_cast<double>(a.x + ex * t) + lateral * std::sin(yaw), static_cast<double>(a.y + ey * t) - lateral * std::cos(yaw), genPoint(s).z);
  pose.orientation = rpyQuat(0, 0, yaw);
  const bool denormalize = s.boolean();
  c.log << str(a) << str(b) << " t=" << t << " lateral " << lateral << " threshold " << threshold << " turn " << turn;
  const auto k = l.getSValue(pose, threshold, denormalize);
  if (std::abs(t) < 1e-6 || std::abs(t - 1) < 1e-6 || std::abs(std::abs(lateral) - threshold) < 1e-6) return;
  const bool hit = t > 0 && t < 1 && std::abs(lateral) < threshold;
  if (hit) c.nontrivial();
  c.require(k.has_value() == hit, "position ", k.value_or(-1));
  if (hit) c.require(vf::close(*k, denormalize ? t * l.length : t, 1e-6, 1e-6), "position ", *k, " instead of ", t);
}

VF_PROP("polylines and intersections of many segments", 30000, 1000000)
{
  std::vector<Point> points;
  const std::size_t n = s.length(7);
  for (std::size_t i = 0; i < n; ++i) {
    points.push_back(i && s.chance(25) ? points[s.index(i)] : gridPoint(s));
    c.log << str(points.back());
  }
  const bool close = s.boolean();
  const auto lines = math::geometry::getLineSegments(points, close);
  std::vector<std::pair<Point, Point>> expected;
  for (std::size_t i = 0; i + 1 < n; ++i)
    if (!same(points[i], points[i + 1])) expected.push_back({points[i], points[i + 1]});
  if (close && n > 1 && !same(points.back(), points.front())) expected.push_back({points.back(), points.front()});
  c.require(lines.size() == expected.size(), lines.size(), " segments instead of ", expected.size());
  for (std::size_t i = 0; i < lines.size(); ++i) c.require(same(lines[i].start_point, expected[i].first) && same(lines[i].end_point, expected[i].second), "segment ", i, " is ", str(lines[i].start_point), str(lines[i].end_point));
  bool any = false, overlap = false;
  std::size_t count = 0;
  for (std::size_t i = 0; i < lines.size(); ++i) {
    if (lines[i].length_2d == 0) return;
    for (std::size_t j = 0; j < lines.size(); ++j) {
      if (i == j) continue;
      const Hit h = solve(expected[i].first, expected[i].second, expected[j].first, expected[j].second);
      const bool hit = h.parallel ? math::geometry::isIntersect2D(lines[i], lines[j]) : h.t >= 0 && h.t <= 1 && h.u >= 0 && h.u <= 1;
      any |= hit;
      count += hit;
      overlap |= hit && h.parallel;
    }
  }
  if (any) c.nontrivial();
  c.require(math::geometry::isIntersect2D(lines) == any, "some intersect: ", !any);
  if (overlap) {
    VF_THROWS(common::SimulationError, math::geometry::getIntersection2D(lines));
  } else {
    const auto all = math::geometry::getIntersection2D(lines);
    c.require(all.size() == count, all.size(), " intersections instead of ", count);
    for (const auto & x : all) {
      int on = 0;
      for (const auto & [p, q] : expected) {
        const LD ex = q.x - p.x, ey = q.y - p.y, e = std::hypot(ex, ey);
        const LD t = ((x.x - p.x) * ex + (x.y - p.y) * ey) / (e * e);
        on += std::abs((x.x - p.x) * ey - (x.y - p.y) * ex) / e < 1e-6L && t > -1e-6L && t < 1 + 1e-6L;
      }
      c.require(on >= 2, str(x), " is on ", on, " segments");
    }
  }
}
