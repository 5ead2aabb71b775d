// Catmull-Rom splines and subsplines: shape, arc length coordinate, crossings, sampling.
#include <algorithm>
#include <geometry/spline/catmull_rom_spline.hpp>
#include <geometry/spline/catmull_rom_subspline.hpp>
#include <geometry/vector3/operator.hpp>
#include <scenario_simulator_exception/exception.hpp>

#include "curve.hpp"
using namespace geo;
using math::geometry::CatmullRomSpline;
using math::geometry::CatmullRomSubspline;

struct Ref
{
  std::vector<Point> p;
  std::vector<Cubic> curves;
  std::vector<double> lengths;  // as reported, verified against the arcs
  double total = 0;
  bool road = false;
  std::pair<std::size_t, LD> at(double s) const
  {
    LD begin = 0;
    for (std::size_t i = 0; i < curves.size(); ++i) {
      if (s < begin + lengths[i] || i + 1 == curves.size()) return {i, (s - begin) / lengths[i]};
      begin += lengths[i];
    }
    return {0, 0};
  }
  V3 point(double s) const { const auto [i, t] = at(s); return curves[i].at(t); }
  V3 d1(double s) const { const auto [i, t] = at(s); return curves[i].d1(t); }
  double start(std::size_t i) const { double r = 0; for (std::size_t k = 0; k < i; ++k) r += lengths[k]; return r; }
};
std::vector<Point> genPoints(vf::Src & s, vf::Case & c, std::size_t min, std::size_t max, bool & road)
{
  std::vector<Point> v;
  const std::size_t n = s.length(min, max);
  road = s.chance(75);
  double heading = angle(s), x = coord(s), y = coord(s), z = s.real(-10, 10);
  const double bend = s.pick({0.0, 0.1, 0.3});
  for (std::size_t i = 0; i < n; ++i) {
    if (!road) {
      v.push_back(genPoint(s, 50));
    } else {
      v.push_back(geo::point(x, y, z));
      const double step = s.pick({10.0, 5.0, 2.0, 20.0}) * s.uniform(0.7, 1.4);
      heading += s.uniform(-bend, bend);
      x += step * std::cos(heading);
      y += step * std::sin(heading);
      z += s.pick({0.0, 0.1, -0.3, 1.0});
    }
    if (s.chance(8)) v.push_back(v.back());
  }
  for (const auto & q : v) c.log << str(q);
  return v;
}
Ref reference(vf::Case & c, const std::vector<Point> & raw, const CatmullRomSpline & spline, bool road)
{
  Ref r;
  r.road = road;
  for (const auto & q : raw) {
    if (r.p.empty() || !(q.x == r.p.back().x && q.y == r.p.back().y && q.z == r.p.back().z)) r.p.push_back(q);
  }
  c.require(spline.control_points.size() == r.p.size(), spline.control_points.size(), " control points remain of ", r.p.size());
  for (std::size_t i = 0; i < r.p.size(); ++i) c.require(near(spline.control_points[i], ld(r.p[i]), 0), "control point ", i, " is ", str(spline.control_points[i]));
  const std::size_t n = r.p.size() - 1;
  r.total = spline.getLength();
  if (r.p.size() == 1) return r;
  for (std::size_t i = 0; i < n; ++i) {
    Cubic k;
    const auto P = [&](std::size_t j) { return ld(r.p[j]); };
    for (int a = 0; a < 3; ++a) {
      LD m0, m1;
      const LD d = P(i + 1)[a] - P(i)[a];
      if (n == 1) {
        m0 = m1 = d;
      } else if (i == 0) {  // quadratic: the arrival slope is the central difference
        m1 = (P(2)[a] - P(0)[a]) / 2;
        m0 = 2 * d - m1;
      } else if (i + 1 == n) {
        m0 = (P(i + 1)[a] - P(i - 1)[a]) / 2;
        m1 = 2 * d - m0;
      } else {
        m0 = (P(i + 1)[a] - P(i - 1)[a]) / 2;
        m1 = (P(i + 2)[a] - P(i)[a]) / 2;
      }
      k.c[a][0] = -2 * d + m0 + m1;
      k.c[a][1] = 3 * d - 2 * m0 - m1;
      k.c[a][2] = m0;
      k.c[a][3] = P(i)[a];
    }
    r.curves.push_back(k);
  }
  if (n == 1) {
    const double d = static_cast<double>(len(ld(r.p[1]) - ld(r.p[0])));
    c.require(vf::close(r.total, d, 1e-12, 1e-12), "the segment is ", r.total, " long instead of ", d);
    r.lengths = {r.total};
    return r;
  }
  r.lengths = spline.getLengths();
  c.require(r.lengths.size() == n, r.lengths.size(), " lengths for ", n, " stretches");
  double sum = 0;
  for (std::size_t i = 0; i < n; ++i) {
    LD exact = 0, variation = 0, last = len(r.curves[i].d1(0));
    for (int j = 1; j <= 200; ++j) {
      const LD v = len(r.curves[i].d1(j / 200.0L));
      variation += std::abs(v - last);
      last = v;
      exact += len(r.curves[i].d1((j - 0.5L) / 200)) / 200;
    }
    c.require(std::abs(r.lengths[i] - exact) <= variation / 100 * 1.01L + 1e-3L * exact + 1e-9L, "stretch ", i, " is ", static_cast<double>(exact), " long, reported ", r.lengths[i]);
    sum += r.lengths[i];
  }
  c.require(vf::close(sum, r.total, 1e-12, 1e-12), "the lengths add up to ", sum, " but the spline is ", r.total, " long");
  return r;
}
bool usable(const Ref & r)
{
  for (double l : r.lengths) if (l < 0.5) return false;
  for (const auto & k : r.curves)
    for (int i = 0; i <= 20; ++i) {
      const V3 d = k.d1(i / 20.0L);
      if (std::hypot(d[0], d[1]) < 0.05L) return false;
    }
  return !r.lengths.empty();
}
double genS(vf::Src & s, const Ref & r, bool outside)
{
  switch (s.draw(outside && r.curves.size() > 1 ? 5 : 4)) {
    case 0: return 0;
    case 1: return r.total;
    case 2: return std::min(r.start(s.index(r.curves.size())), r.total);
    case 4: return s.boolean() ? -s.uniform(0, 3) : r.total + s.uniform(0, 3);
    default: return s.uniform(0, r.total);
  }
}
V3 aside(const V3 & p, const V3 & d, LD offset)
{
  const LD n = std::hypot(d[0], d[1]);
  return {p[0] - d[1] / n * offset, p[1] + d[0] / n * offset, p[2]};
}

VF_PROP("points, tangents, normals, poses and distances", 40000, 1500000)
{
  bool road;
  const auto raw = genPoints(s, c, 1, 7, road);
  const CatmullRomSpline spline(raw);
  const Ref r = reference(c, raw, spline, road);
  double lo = r.p[0].z, hi = lo;
  for (const auto & q : r.p) lo = std::min(lo, q.z), hi = std::max(hi, q.z);
  c.require(spline.getAltitudeRange() == std::make_pair(lo, hi), "altitudes ", spline.getAltitudeRange().first, " to ", spline.getAltitudeRange().second);
  const Point q = genPoint(s);
  if (r.p.size() == 1) {
    c.require(spline.getLength() == 0 && near(spline.getPoint(0), ld(r.p[0]), 0), "a single point");
    VF_THROWS(common::SimulationError, spline.getPoint(1));
    VF_THROWS(common::SimulationError, spline.getNormalVector(0));
    VF_THROWS(common::SimulationError, spline.getTangentVector(0));
    VF_THROWS(common::SimulationError, spline.getPose(0));
    VF_THROWS(common::SimulationError, spline.getSquaredDistanceIn2D(q, 1));
    c.require(vf::close(spline.getSquaredDistanceIn2D(q, 0), std::pow(q.x - r.p[0].x, 2) + std::pow(q.y - r.p[0].y, 2), 1e-12, 0), "distance from the single point");
    c.require(near(spline.getSquaredDistanceVector(q, 0), ld(q) - ld(r.p[0]), 1e-12), "vector from the single point");
    return;
  }
  const double k = genS(s, r, true), offset = s.real(-5, 5);
  const bool pitch = s.boolean();
  c.log << " s=" << k << " offset=" << offset;
  if (!usable(r)) return;
  c.nontrivial();
  const double tol = 1e-7;
  for (std::size_t i = 0; i < r.p.size(); ++i) {
    const double at = i + 1 == r.p.size() ? r.total : std::min(r.start(i), r.total);
    c.require(near(spline.getPoint(at), ld(r.p[i]), tol), "the spline misses control point ", i, ": ", str(spline.getPoint(at)));
  }
  if (r.p.size() == 2 && k > 0 && k == r.total && k / r.total > 1) return;
  const V3 p = r.point(k), d = r.d1(k);
  c.require(near(spline.getPoint(k), p, tol), "point ", str(spline.getPoint(k)), " instead of ", str(p));
  c.require(near(spline.getTangentVector(k), d, tol * 100), "tangent ", str(spline.getTangentVector(k)), " instead of ", str(d));
  c.require(near(spline.getNormalVector(k), V3{-d[1], d[0], 0}, tol * 100), "normal ", str(spline.getNormalVector(k)), " for the tangent ", str(d));
  c.require(near(spline.getPoint(k, offset), aside(p, d, offset), 1e-6), "point ", offset, " aside is ", str(spline.getPoint(k, offset)), " instead of ", str(aside(p, d, offset)));
  const Pose pose = spline.getPose(k, pitch);
  const V3 dir = pitch ? d : V3{d[0], d[1], 0};
  c.require(near(pose.position, p, tol), "pose at ", str(pose.position));
  c.require(near(rotate(pose.orientation, {1, 0, 0}), dir * (1 / len(dir)), 1e-5) && std::abs(rotate(pose.orientation, {0, 1, 0})[2]) < 1e-9, "pose ", str(pose), " does not face ", str(dir));
  const LD dx = q.x - p[0], dy = q.y - p[1];
  c.require(vf::close(spline.getSquaredDistanceIn2D(q, k), static_cast<double>(dx * dx + dy * dy), 1e-7, 1e-5), "squared distance ", spline.getSquaredDistanceIn2D(q, k));
  c.require(near(spline.getSquaredDistanceVector(q, k), ld(q) - p, tol), "distance vector");
  if (r.p.size() == 2) {
    const double out = s.boolean() ? -0.5 : r.total + 0.5;
    VF_THROWS(common::SimulationError, spline.getPoint(out));
    VF_THROWS(common::SimulationError, spline.getNormalVector(out));
    VF_THROWS(common::SimulationError, spline.getTangentVector(out));
    VF_THROWS(common::SimulationError, spline.getPose(out));
    VF_THROWS(common::SemanticError, spline.getMaximum2DCurvature());
  } else {
    LD worst = 0;
    bool regular = true;
    for (const auto & curve : r.curves)
      for (int i = 0; i <= 10; ++i) {
        const V3 a = curve.d1(i / 10.0L), b = curve.d2(i / 10.0L);
        const LD v = a[0] * a[0] + a[1] * a[1];
        if (v < 1e-2L) regular = false;
        const LD kk = (a[0] * b[1] - b[0] * a[1]) / std::pow(v, 1.5L);
        if (std::abs(kk) > std::abs(worst)) worst = kk;
      }
    for (int i = 0; regular && i < 2; ++i) {
      c.require(vf::close(std::abs(spline.getMaximum2DCurvature()), static_cast<double>(std::abs(worst)), 1e-6, 1e-7), "largest curvature ", spline.getMaximum2DCurvature(), " instead of ", static_cast<double>(worst));
    }
  }
}

VF_PROP("sampling and outline", 12000, 400000)
{
  bool road;
  const auto raw = genPoints(s, c, 2, 6, road);
  const CatmullRomSpline spline(raw);
  const Ref r = reference(c, raw, spline, road);
  if (r.p.size() < 2 || !usable(r)) return;
  const double a = s.uniform(0.02, 0.98) * r.total, b = s.chance(10) ? a : s.uniform(0.02, 0.98) * r.total;
  const double resolution = s.uniform(0.02, 0.7) * r.total * (s.boolean() ? -1 : 1), offset = s.real(-4, 4);
  c.log << " from " << a << " to " << b << " each " << resolution << " offset " << offset;
  c.nontrivial();
  const auto points = spline.getTrajectory(a, b, resolution, offset);
  const auto poses = spline.getTrajectoryPoses(a, b, resolution);
  std::vector<double> at;
  const double step = std::abs(resolution);
  for (double k = a; a > b ? k > b : k < b; k += a > b ? -step : step) at.push_back(k);
  at.push_back(b);
  // the last sample before the end may be lost or kept by rounding
  const bool edge = at.size() > 1 && std::abs(at[at.size() - 2] - b) < 1e-9 * r.total;
  const bool edge2 = std::abs(std::remainder(std::abs(a - b), step)) < 1e-9 * r.total;
  if (!edge && !edge2) {
    c.require(points.size() == at.size(), points.size(), " points instead of ", at.size());
    c.require(poses.size() == at.size(), poses.size(), " poses instead of ", at.size());
    for (std::size_t i = 0; i < at.size(); ++i) {
      const V3 d = r.d1(at[i]), p = r.point(at[i]);
      c.require(near(points[i], aside(p, d, offset), 1e-6), "sample ", i, " is ", str(points[i]), " instead of ", str(aside(p, d, offset)));
      c.require(near(poses[i].position, p, 1e-6) && near(rotate(poses[i].orientation, {1, 0, 0}), d * (1 / len(d)), 1e-5), "sampled pose ", i, " is ", str(poses[i]));
    }
  }
  VF_THROWS(common::SimulationError, spline.getTrajectory(a, b, 0));
  VF_THROWS(common::SimulationError, spline.getTrajectoryPoses(a, b, 0));
  const double width = s.real(0.5, 6), z = s.real(-2, 2);
  const std::size_t n = s.length(8);
  auto copy = spline;
  if (r.p.size() == 2) return;
  const auto outline = copy.getPolygon(width, n, z);
  c.require(outline.size() == 6 * n, outline.size(), " points in the outline of ", n, " stretches");
  for (std::size_t i = 0; i < n; ++i) {
    // two triangles per stretch, which together cover both sides of both of its ends
    for (int j = 0; j < 6; ++j) {
      static const int end[] = {0, 0, 1, 0, 1, 1};
      static const int side[] = {1, -1, 1, -1, -1, 1};
      const double k = std::min(r.total / n * (i + end[j]), r.total);
      const V3 p = r.point(k), d = r.d1(k);
      V3 l = aside(p, d, side[j] * width / 2);
      l[2] += z;
      c.require(near(outline[6 * i + j], l, 1e-5), "outline point ", 6 * i + j, " is ", str(outline[6 * i + j]), " instead of ", str(l));
    }
  }
}

VF_PROP("longitudinal position of a pose", 20000, 800000)
{
  bool road;
  const auto raw = genPoints(s, c, 2, 7, road);
  const CatmullRomSpline spline(raw);
  const Ref r = reference(c, raw, spline, road);
  if (!road || r.p.size() < 2 || !usable(r)) return;
  const double k = s.uniform(0.01, 0.99) * r.total, lateral = s.uniform(-5, 5), threshold = s.pick({3.0, 1.0, 6.0});
  c.log << " s=" << k << " lateral " << lateral << " threshold " << threshold;
  // gentle roads only: no second stretch beside the pose
  LD turn = 0;
  for (const auto & curve : r.curves) {
    const V3 a = curve.d1(0), b = curve.d1(1), z = r.curves[0].d1(0);
    for (int i = 0; i <= 40; ++i) if (dot(curve.d1(i / 40.0L), z) < 0.2L * len(z)) return;  // an uneven stretch may run back
    turn = std::max({turn, std::abs(std::atan2(z[0] * a[1] - z[1] * a[0], z[0] * a[0] + z[1] * a[1])), std::abs(std::atan2(z[0] * b[1] - z[1] * b[0], z[0] * b[0] + z[1] * b[1]))});
  }
  if (turn > 0.7L) return;
  const V3 p = r.point(k), d = r.d1(k);
  Pose pose;
  pose.position = geo::point(0, 0, 0);
  const V3 l = aside(p, d, lateral);
  pose.position = geo::point(static_cast<double>(l[0]), static_cast<double>(l[1]), static_cast<double>(l[2]));
  pose.orientation = rpyQuat(0, 0, static_cast<double>(std::atan2(d[1], d[0])));
  const auto got = spline.getSValue(pose, threshold);
  if (std::abs(lateral) < threshold - 1e-3) {
    c.nontrivial();
    c.require(got.has_value(), "no position within the threshold");
    c.require(std::abs(*got - k) < 1e-2, "position ", *got, " instead of ", k);
  } else if (std::abs(lateral) > threshold + 1e-3) {
    c.require(!got.has_value(), "position ", *got, " for a pose ", lateral, " m aside");
  }
}

std::string list2(const std::set<double> & v) { return geo::list(v); }

VF_PROP("crossings with segments and polygons", 16000, 600000)
{
  bool road;
  const auto raw = genPoints(s, c, 1, 6, road);
  const auto spline = std::make_shared<CatmullRomSpline>(raw);
  const Ref r = reference(c, raw, *spline, road);
  std::vector<Point> polygon;
  const std::size_t n = s.length(5);
  for (std::size_t i = 0; i < n; ++i) {
    if (i && s.chance(60)) {
      polygon.push_back(geo::point(polygon.back().x + s.real(-12, 12), polygon.back().y + s.real(-12, 12), s.real(-1, 1)));
    } else {
      const Point & near_to = r.p[s.index(r.p.size())];
      polygon.push_back(geo::point(near_to.x + s.real(-8, 8), near_to.y + s.real(-8, 8), 0));
    }
  }
  const bool backward = s.boolean();
  c.log << " polygon";
  for (const auto & q : polygon) c.log << str(q);
  if (polygon.size() <= 1) {
    VF_THROWS(common::SimulationError, spline->getCollisionPointsIn2D(polygon, backward));
    return;
  }
  if (r.p.size() < 2 || !usable(r)) return;
  std::set<double> got;
  if (r.p.size() == 2) {
    // a collinear side is refused
    for (std::size_t i = 0; i + 1 < polygon.size(); ++i) {
      const LD ex = r.p[1].x - r.p[0].x, ey = r.p[1].y - r.p[0].y;
      const LD fx = polygon[i + 1].x - polygon[i].x, fy = polygon[i + 1].y - polygon[i].y;
      if (std::abs(ex * fy - ey * fx) < 1e-6L) return;
    }
  }
  got = spline->getCollisionPointsIn2D(polygon, backward);
  std::vector<double> must;  // certain crossings
  bool sure = true;          // nothing delicate: what is reported must be a crossing
  std::vector<std::pair<Point, Point>> sides;
  for (std::size_t i = 0; i + 1 < polygon.size(); ++i) sides.push_back({polygon[i], polygon[i + 1]});
  if (r.p.size() > 2) sides.push_back({polygon.back(), polygon.front()});
  std::vector<double> may;
  for (const auto & [a, b] : sides) {
    if (std::hypot(a.x - b.x, a.y - b.y) < 1e-6) { sure = false; continue; }
    for (std::size_t i = 0; i < r.curves.size(); ++i) {
      bool delicate;
      for (const auto & x : crossings(r.curves[i], a, b, delicate)) {
        const double k = static_cast<double>(r.start(i) + x.t * r.lengths[i]);
        if (x.distinct && !delicate && x.t > 0.001L && x.t < 0.999L && x.u > 0.001L && x.u < 0.999L) must.push_back(k);
        else if (x.t > -0.01L && x.t < 1.01L && x.u > -0.01L && x.u < 1.01L) may.push_back(k);
      }
      if (delicate) sure = false;
    }
  }
  double longest = *std::max_element(r.lengths.begin(), r.lengths.end());
  for (const auto & [a, b] : sides)
    for (const auto & curve : r.curves) if (std::hypot(a.x - b.x, a.y - b.y) > 1e-6 && accuracy(curve, a, b) > 1e-3L) longest *= 10;
  longest = std::min(longest, 500.0);
  for (double m : must) {
    bool ok = false;
    for (double g : got) ok |= std::abs(g - m) < 1e-3 + 5e-4 * longest;
    c.require(ok, "the crossing at ", m, " is missing from ", list2(got));
    c.nontrivial();
  }
  for (double g : got) {
    bool ok = !sure;
    for (double m : must) ok |= std::abs(g - m) < 1e-3 + 5e-4 * longest;
    for (double m : may) ok |= std::abs(g - m) < 1e-2 + 5e-4 * longest;
    c.require(ok, "the spline does not cross the polygon at ", g, ", all are ", list2(got));
  }
  const auto one = spline->getCollisionPointIn2D(polygon, backward);
  c.require(one.has_value() == !got.empty() && (!one || *one == (backward ? *got.rbegin() : *got.begin())), "the ", backward ? "last" : "first", " of ", list2(got), " is ", one.value_or(-1));
  // a single segment
  if (r.p.size() > 2) {
    const auto & [a, b] = sides[0];
    const auto hit = spline->getCollisionPointIn2D(a, b, backward);
    const auto both = spline->getCollisionPointIn2D({a, b}, backward);
    if (sure && may.empty()) c.require(hit.has_value() == both.has_value() && (!hit || std::abs(*hit - *both) < 1e-6), "the segment is hit at ", hit.value_or(-1), ", as a polygon at ", both.value_or(-1));
    // restricted to a stretch, no crossing within it is lost
    const double u = s.uniform(0, 1) * r.total, v = s.uniform(0, 1) * r.total;
    const auto some = spline->getCollisionPointsIn2D(polygon, backward, std::make_pair(std::min(u, v), std::max(u, v)));
    for (double g : got) {
      if (std::min(u, v) + 1e-6 < g && g < std::max(u, v) - 1e-6) c.require(some.count(g) == 1, "the crossing at ", g, " is lost in the range ", std::min(u, v), " to ", std::max(u, v), ": ", list2(some));
    }
    for (double g : some) c.require(got.count(g) == 1, "a crossing at ", g, " only in a range");
  }
  // subspline
  const double begin = s.uniform(-0.1, 0.9) * r.total, end = begin + s.uniform(0, 0.9) * r.total;
  const CatmullRomSubspline sub(spline, begin, end);
  c.log << " sub " << begin << " " << end;
  c.require(vf::close(sub.getLength(), end - begin, 1e-12, 1e-12), "the part is ", sub.getLength(), " long");
  std::vector<double> inside;
  for (double g : got) if (begin <= g && g <= end) inside.push_back(g);
  const auto found = sub.getCollisionPointIn2D(polygon, backward);
  c.require(found.has_value() == !inside.empty(), "the part has ", inside.size(), " crossings, reported ", found.value_or(-1));
  if (found) c.require(vf::close(*found, (backward ? inside.back() : inside.front()) - begin, 1e-9, 1e-9), "crossing of the part at ", *found, ", begin ", begin, " of ", list2(got));
  if (r.p.size() > 2) {  // restricted to a stretch of the part, no crossing within that is passed over
    double u = s.uniform(-0.05, 1) * (end - begin), v = s.uniform(0, 1.05) * (end - begin);
    if (u > v) std::swap(u, v);
    const auto some = sub.getCollisionPointIn2D(polygon, backward, std::make_pair(u, v));
    if (some) {
      bool ok = false;
      for (double g : inside) ok |= vf::close(*some, g - begin, 1e-9, 1e-9);
      c.require(ok, "a crossing of the part at ", *some, " in a range only, of ", list2(got), ", begin ", begin);
    }
    for (double g : inside) {
      if (u + 1e-6 < g - begin && g - begin < v - 1e-6) {
        c.require(some.has_value() && (backward ? *some >= g - begin - 1e-9 : *some <= g - begin + 1e-9), "the part has a crossing at ", g - begin, " in the range ", u, " to ", v, ", reported ", some.value_or(-1));
      }
    }
    const auto whole = spline->getCollisionPointIn2D(polygon, backward, std::make_pair(u + begin, v + begin));
    for (double g : got) {
      if (u + 1e-6 < g - begin && g - begin < v - 1e-6) {
        c.require(whole.has_value() && (backward ? *whole >= g - 1e-9 : *whole <= g + 1e-9), "the spline has a crossing at ", g, " in the range ", u + begin, " to ", v + begin, ", reported ", whole.value_or(-1));
      }
    }
  }
  if (end - begin > 0.01) VF_THROWS(common::SimulationError, CatmullRomSubspline(spline, end, begin).getCollisionPointIn2D(polygon, backward));
  const double k = s.uniform(0, 1) * (end - begin);
  if (begin + k >= 0 && begin + k < r.total) {
    const Point q = genPoint(s);
    const V3 p = r.point(begin + k);
    c.require(vf::close(sub.getSquaredDistanceIn2D(q, k), static_cast<double>((q.x - p[0]) * (q.x - p[0]) + (q.y - p[1]) * (q.y - p[1])), 1e-7, 1e-5), "squared distance from the part");
  }
  if (r.p.size() > 2) {
    double lo = INFINITY, hi = -INFINITY;
    bool tie = false;
    for (std::size_t i = 0; i < r.p.size(); ++i) {
      const double at = r.start(i);
      tie |= std::abs(at - begin) < 1e-6 || std::abs(at - end) < 1e-6;
      if (begin <= at && at <= end) lo = std::min(lo, r.p[i].z), hi = std::max(hi, r.p[i].z);
    }
    if (!tie && hi >= lo) c.require(sub.getAltitudeRange() == std::make_pair(lo, hi), "altitudes of the part");
  }
}

VF_PROP("spline of a trajectory", 4000, 100000)
{
  auto t = std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>();
  const Point start = genPoint(s);
  const std::size_t n = s.length(5);
  t->closed = s.boolean();
  std::vector<Point> expected{start};
  for (std::size_t i = 0; i < n; ++i) {
    traffic_simulator_msgs::msg::Vertex v;
    v.position.position = genPoint(s);
    v.time = i;
    t->shape.vertices.push_back(v);
    expected.push_back(v.position.position);
  }
  if (t->closed) expected.push_back(start);
  c.log << "vertices " << n << " closed " << t->closed;
  if (n) c.nontrivial();
  const CatmullRomSpline a(start, t);
  const Ref r = reference(c, expected, a, false);
  VF_THROWS(common::SimulationError, CatmullRomSpline(start, nullptr));
  VF_THROWS(common::SemanticError, CatmullRomSpline(std::vector<Point>{}));
}
