// Bounding boxes, polygons, distances, collisions and planes.
#include <algorithm>
#include <geometry/bounding_box.hpp>
#include <geometry/distance.hpp>
#include <geometry/intersection/collision.hpp>
#include <geometry/plane.hpp>
#include <geometry/polygon/polygon.hpp>
#include <scenario_simulator_exception/exception.hpp>

#include "geo.hpp"
using namespace geo;
using traffic_simulator_msgs::msg::BoundingBox;
using P2 = std::array<LD, 2>;
using Poly = std::vector<P2>;  // not closed

LD pointSegment(const P2 & p, const P2 & a, const P2 & b)
{
  const LD ex = b[0] - a[0], ey = b[1] - a[1], n = ex * ex + ey * ey;
  LD t = n == 0 ? 0 : ((p[0] - a[0]) * ex + (p[1] - a[1]) * ey) / n;
  t = std::min<LD>(1, std::max<LD>(0, t));
  return std::hypot(p[0] - a[0] - t * ex, p[1] - a[1] - t * ey);
}
LD orient(const P2 & a, const P2 & b, const P2 & c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
bool cross2(const P2 & a, const P2 & b, const P2 & p, const P2 & q)
{
  const LD x = orient(a, b, p), y = orient(a, b, q), z = orient(p, q, a), w = orient(p, q, b);
  return ((x > 0) != (y > 0)) && ((z > 0) != (w > 0));
}
bool inside(const Poly & v, const P2 & p)  // even-odd; not for points on the outline
{
  bool in = false;
  for (std::size_t i = 0, j = v.size() - 1; i < v.size(); j = i++) {
    if ((v[i][1] > p[1]) != (v[j][1] > p[1]) && p[0] < (v[j][0] - v[i][0]) * (p[1] - v[i][1]) / (v[j][1] - v[i][1]) + v[i][0]) in = !in;
  }
  return in;
}
LD outlineDistance(const Poly & v, const P2 & p)
{
  LD d = INFINITY;
  for (std::size_t i = 0; i < v.size(); ++i) d = std::min(d, pointSegment(p, v[i], v[(i + 1) % v.size()]));
  return d;
}
// distance of two areas; 0 if they share a point
LD areaDistance(const Poly & a, const Poly & b)
{
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t j = 0; j < b.size(); ++j)
      if (cross2(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return 0;
  if (inside(a, b[0]) || inside(b, a[0])) return 0;
  LD d = INFINITY;
  for (const auto & p : a) d = std::min(d, outlineDistance(b, p));
  for (const auto & p : b) d = std::min(d, outlineDistance(a, p));
  return d;
}
// how deep two convex areas overlap (<= 0: they do not)
LD depth(const Poly & a, const Poly & b)
{
  LD best = INFINITY;
  for (const auto * poly : {&a, &b})
    for (std::size_t i = 0; i < poly->size(); ++i) {
      const P2 & p = (*poly)[i], & q = (*poly)[(i + 1) % poly->size()];
      const LD nx = q[1] - p[1], ny = p[0] - q[0], n = std::hypot(nx, ny);
      if (n < 1e-9L) continue;
      LD lo0 = INFINITY, hi0 = -INFINITY, lo1 = INFINITY, hi1 = -INFINITY;
      for (const auto & v : a) { const LD k = (v[0] * nx + v[1] * ny) / n; lo0 = std::min(lo0, k); hi0 = std::max(hi0, k); }
      for (const auto & v : b) { const LD k = (v[0] * nx + v[1] * ny) / n; lo1 = std::min(lo1, k); hi1 = std::max(hi1, k); }
      best = std::min(best, std::min(hi0, hi1) - std::max(lo0, lo1));
    }
  return best;
}
BoundingBox genBox(vf::Src & s)
{
  BoundingBox b;
  b.center = point(s.real(-3, 3), s.real(-2, 2), s.real(-1, 2));
  b.dimensions = vec(s.pick({4.0, 1.0, 0.5, -1.0}), 0, 0);
  if (b.dimensions.x < 0) b.dimensions.x = s.uniform(0.2, 8);
  b.dimensions.y = s.boolean() ? 2 : s.uniform(0.2, 4);
  b.dimensions.z = s.boolean() ? 1.5 : s.uniform(0.2, 4);
  return b;
}
std::string text(const BoundingBox & b) { return str(b.center) + str(b.dimensions); }
std::array<V3, 4> top(const BoundingBox & b)
{
  const LD x = b.dimensions.x / 2, y = b.dimensions.y / 2, z = b.dimensions.z / 2;
  const V3 m = ld(b.center);
  return {m + V3{x, y, z}, m + V3{-x, y, z}, m + V3{-x, -y, z}, m + V3{x, -y, z}};
}
Poly outline(const Pose & pose, const BoundingBox & b)
{
  Poly r;
  for (const auto & v : top(b)) { const V3 w = apply(pose, v); r.push_back({w[0], w[1]}); }
  return r;
}
Pose genPlanar(vf::Src & s, double r)
{
  Pose p;
  p.position = point(s.real(-r, r), s.real(-r, r), s.chance(30) ? s.real(-4, 4) : 0);
  p.orientation = s.chance(15) ? rpyQuat(s.uniform(-0.2, 0.2), s.uniform(-0.2, 0.2), angle(s)) : rpyQuat(0, 0, angle(s));
  return p;
}

VF_PROP("collision and distance of two bounding boxes", 40000, 1500000)
{
  const double r = s.pick({4.0, 2.0, 6.0, 30.0});
  const Pose p = genPlanar(s, r), q = genPlanar(s, r);
  const BoundingBox a = genBox(s), b = genBox(s);
  c.log << str(p) << text(a) << " and " << str(q) << text(b);
  const Poly x = outline(p, a), y = outline(q, b);
  const LD d = depth(x, y), gap = areaDistance(x, y);
  if (std::abs(d) < 1e-6L) return;
  const bool overlap = d > 0;
  const LD height = std::abs((p.position.z + a.center.z) - (q.position.z + b.center.z)), reach = (a.dimensions.z + b.dimensions.z) / 2;
  c.nontrivial();
  c.label(overlap ? (height > reach ? "above" : "collision") : "apart");
  if (std::abs(height - reach) > 1e-9L) {
    const bool expected = overlap && height <= reach;
    c.require(math::geometry::checkCollision2D(p, a, q, b) == expected, "collision is ", !expected);
    c.require(math::geometry::checkCollision2D(q, b, p, a) == expected, "collision is ", !expected, " the other way round");
  }
  const auto distance = math::geometry::getPolygonDistance(p, a, q, b), back = math::geometry::getPolygonDistance(q, b, p, a);
  c.require(distance.has_value() != overlap && back.has_value() != overlap, "a distance of ", overlap ? "overlapping" : "separate", " boxes");
  const auto closest = math::geometry::getClosestPoses(p, a, q, b);
  c.require(closest.has_value() != overlap, "closest points of ", overlap ? "overlapping" : "separate", " boxes");
  if (!overlap) {
    c.require(vf::close(*distance, static_cast<double>(gap), 1e-9, 1e-9) && vf::close(*back, static_cast<double>(gap), 1e-9, 1e-9), "distance ", *distance, " instead of ", static_cast<double>(gap));
    const auto & [u, v] = *closest;
    const P2 m{u.position.x, u.position.y}, n{v.position.x, v.position.y};
    c.require(vf::close(static_cast<double>(std::hypot(m[0] - n[0], m[1] - n[1])), static_cast<double>(gap), 1e-9, 1e-9), "the closest points ", str(u.position), str(v.position), " are not ", static_cast<double>(gap), " apart");
    const bool straight = outlineDistance(x, m) < 1e-7L && outlineDistance(y, n) < 1e-7L, swapped = outlineDistance(x, n) < 1e-7L && outlineDistance(y, m) < 1e-7L;
    c.require(straight || swapped, "the closest points ", str(u.position), str(v.position), " are not on the boxes");
  }
}

VF_PROP("corners and edges of a bounding box", 30000, 1000000)
{
  const BoundingBox b = genBox(s);
  const double right = s.real(0, 2), left = s.real(0, 2), front = s.real(0, 3), rear = s.real(0, 3);
  c.log << text(b) << " extended " << right << " " << left << " " << front << " " << rear;
  c.nontrivial();
  const auto corners = top(b);
  const auto plain = math::geometry::getPointsFromBbox(b), wide = math::geometry::getPointsFromBbox(b, right, left, front, rear);
  c.require(plain.size() == 4 && wide.size() == 4, "not four corners");
  for (int i = 0; i < 4; ++i) {
    c.require(near(plain[i], corners[i], 1e-12), "corner ", i, " is ", str(plain[i]), " instead of ", str(corners[i]));
    const V3 e = corners[i] + V3{i == 0 || i == 3 ? front : -rear, i < 2 ? left : -right, 0};
    c.require(near(wide[i], e, 1e-12), "extended corner ", i, " is ", str(wide[i]), " instead of ", str(e));
  }
  const auto d = math::geometry::getDistancesFromCenterToEdge(b);
  const auto eq = [](double x, LD y) { return std::abs(x - y) < 1e-12L; };
  c.require(
    eq(d.front, corners[0][0]) && eq(d.rear, corners[1][0]) && eq(d.left, corners[0][1]) && eq(d.right, corners[2][1]) && eq(d.up, corners[0][2]) && eq(d.down, corners[0][2] - b.dimensions.z),
    "edges ", d.front, " ", d.rear, " ", d.left, " ", d.right, " ", d.up, " ", d.down);
  const auto hull = math::geometry::toPolygon2D(b);
  c.require(hull.size() == 5 && near(hull[0], ld(hull[4]), 0), hull.size(), " points around the box");
  for (const auto & v : corners) {
    c.require(std::any_of(hull.begin(), hull.end(), [&](const auto & h) { return near(h, V3{v[0], v[1], 0}, 1e-12); }), "the outline misses the corner ", str(v));
  }
  const Pose pose = genPose(s, 30);
  const auto poly = math::geometry::toPolygon2D(pose, b);
  const Poly expected = outline(pose, b);
  c.require(poly.outer().size() == 5, "the polygon has ", poly.outer().size(), " points");
  for (std::size_t i = 0; i < 5; ++i) c.require(std::abs(poly.outer()[i].x() - expected[i % 4][0]) < 1e-9L && std::abs(poly.outer()[i].y() - expected[i % 4][1]) < 1e-9L, "polygon point ", i);
  // closest point of the outline
  const math::geometry::boost_point query(s.real(-40, 40), s.real(-40, 40));
  const auto at = math::geometry::getClosestPointOnPolygon(query, poly);
  const LD gap = outlineDistance(expected, {query.x(), query.y()});
  c.require(outlineDistance(expected, {at.x(), at.y()}) < 1e-7L && std::abs(std::hypot(at.x() - query.x(), at.y() - query.y()) - gap) < 1e-7L, "closest point ", at.x(), " ", at.y());
  const math::geometry::boost_point u(s.real(-9, 9), s.real(-9, 9)), v(s.real(-9, 9), s.real(-9, 9));
  const auto projected = math::geometry::pointToSegmentProjection(query, u, v);
  const P2 pu{u.x(), u.y()}, pv{v.x(), v.y()}, pp{projected.x(), projected.y()};
  c.require(pointSegment(pp, pu, pv) < 1e-9L && std::abs(std::hypot(pp[0] - query.x(), pp[1] - query.y()) - pointSegment({query.x(), query.y()}, pu, pv)) < 1e-9L, "projection ", projected.x(), " ", projected.y());
  const Pose other = genPose(s, 30), diff = math::geometry::subtractPoses(pose, other);
  c.require(near(diff.position, V3{static_cast<LD>(pose.position.x) - other.position.x, static_cast<LD>(pose.position.y) - other.position.y, 0}, 1e-12), "difference ", str(diff.position));
  const double p0 = static_cast<double>(len(ld(pose.position) - ld(other.position)));
  for (double g : {math::geometry::getDistance(pose, other), math::geometry::getDistance(pose.position, other), math::geometry::getDistance(pose, other.position), math::geometry::getDistance(pose.position, other.position)}) {
    c.require(vf::close(g, p0, 1e-12, 1e-12), "distance ", g, " instead of ", p0);
  }
}

// a star-shaped ring, given in either direction, closed explicitly or not
Poly genRing(vf::Src & s, vf::Case & c, double r, std::vector<Point> & given)
{
  Poly v;
  const std::size_t n = s.length(3, 8);
  const double x = s.real(-r, r), y = s.real(-r, r);
  std::vector<double> at;
  for (std::size_t i = 0; i < n; ++i) at.push_back(2 * M_PI * (i + s.uniform(0, 0.7)) / n);
  for (double a : at) {
    const double d = s.uniform(0.5, 5);
    v.push_back({x + d * std::cos(a), y + d * std::sin(a)});
  }
  if (s.boolean()) std::reverse(v.begin(), v.end());
  for (const auto & p : v) given.push_back(point(static_cast<double>(p[0]), static_cast<double>(p[1]), s.real(-1, 1)));
  for (std::size_t i = 0; i < n; ++i) v[i] = {given[i].x, given[i].y};
  if (s.boolean()) given.push_back(given.front());
  for (const auto & p : given) c.log << str(p);
  return v;
}

VF_PROP("distance of polygons and points inside them", 40000, 1500000)
{
  std::vector<Point> g0, g1;
  const double r = s.pick({6.0, 3.0, 20.0});
  const Poly a = genRing(s, c, r, g0);
  c.log << " and ";
  const Poly b = genRing(s, c, r, g1);
  const double d = math::geometry::getDistance2D(g0, g1), e = static_cast<double>(areaDistance(a, b));
  c.nontrivial();
  if (e > 1e-6 || e == 0) {
    c.require(vf::close(d, e, 1e-9, 1e-7), "distance ", d, " instead of ", e);
    c.require(vf::close(math::geometry::getDistance2D(g1, g0), e, 1e-9, 1e-7), "distance the other way round");
  }
  const Point p = s.boolean() ? point(s.real(-r, r), s.real(-r, r)) : point(static_cast<double>(a[0][0]) + s.uniform(-1, 1), static_cast<double>(a[0][1]) + s.uniform(-1, 1));
  c.log << " point " << str(p);
  const P2 p2{p.x, p.y};
  if (outlineDistance(a, p2) > 1e-7L) c.require(math::geometry::contains(g0, p) == inside(a, p2), "inside is ", !inside(a, p2));
}

VF_PROP("convex hull and extents of points", 40000, 1500000)
{
  std::vector<Point> v;
  const bool grid = s.boolean();
  const std::size_t n = s.length(1, 12);
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back(grid ? point(s.integer(-4, 4), s.integer(-4, 4), s.integer(-4, 4)) : genPoint(s));
    c.log << str(v.back());
  }
  using math::geometry::Axis;
  for (Axis axis : {Axis::X, Axis::Y, Axis::Z}) {
    const auto got = math::geometry::filterByAxis(v, axis);
    c.require(got.size() == n, "values of an axis");
    double lo = INFINITY, hi = -INFINITY;
    for (std::size_t i = 0; i < n; ++i) {
      const double e = axis == Axis::X ? v[i].x : axis == Axis::Y ? v[i].y : v[i].z;
      c.require(got[i] == e, "value ", i, " of an axis is ", got[i]);
      lo = std::min(lo, e);
      hi = std::max(hi, e);
    }
    c.require(math::geometry::getMaxValue(v, axis) == hi && math::geometry::getMinValue(v, axis) == lo, "extent ", math::geometry::getMinValue(v, axis), " to ", math::geometry::getMaxValue(v, axis));
    VF_THROWS(common::SimulationError, math::geometry::getMaxValue({}, axis));
    VF_THROWS(common::SimulationError, math::geometry::getMinValue({}, axis));
    c.require(math::geometry::filterByAxis({}, axis).empty(), "values of no points");
  }
  // general position only: three points off one line
  LD area = 0;
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < i; ++j)
      for (std::size_t k = 0; k < j; ++k) area = std::max(area, std::abs(orient({v[i].x, v[i].y}, {v[j].x, v[j].y}, {v[k].x, v[k].y})));
  if (area < 1e-2L) return;
  c.nontrivial();
  const auto hull = math::geometry::get2DConvexHull(v);
  c.require(hull.size() >= 4 && near(hull.front(), ld(hull.back()), 0), "the hull is not a closed ring of ", hull.size());
  std::vector<P2> h;
  for (const auto & p : hull) {
    c.require(p.z == 0, "the hull is not flat");
    c.require(std::any_of(v.begin(), v.end(), [&](const auto & q) { return q.x == p.x && q.y == p.y; }), str(p), " is no given point");
    h.push_back({p.x, p.y});
  }
  for (std::size_t i = 0; i + 1 < h.size(); ++i) {
    const LD e = std::hypot(h[i + 1][0] - h[i][0], h[i + 1][1] - h[i][1]);
    for (const auto & q : v) c.require(orient(h[i], h[i + 1], {q.x, q.y}) <= 1e-9L * (1 + e), str(q), " is outside the hull side ", i);
  }
}

VF_PROP("planes", 40000, 1000000)
{
  const Point p = genPoint(s), q = genPoint(s);
  const Vec n = s.chance(10) ? vec(0, 0, 0) : genVec(s, 3);
  c.log << str(p) << " normal " << str(n) << " point " << str(q);
  if (n.x == 0 && n.y == 0 && n.z == 0) {
    VF_THROWS(common::SimulationError, math::geometry::Plane(p, n));
    return;
  }
  c.nontrivial();
  const math::geometry::Plane plane(p, n);
  const LD e = dot(ld(n), ld(q) - ld(p));
  c.require(std::abs(plane.offset(q) - e) <= 1e-9L, "offset ", plane.offset(q), " instead of ", static_cast<double>(e));
  c.require(std::abs(plane.offset(p)) <= 1e-9, "the plane misses its point");
  Point bad = p;
  (s.boolean() ? bad.x : s.boolean() ? bad.y : bad.z) = NAN;
  VF_THROWS(common::SimulationError, math::geometry::Plane(bad, n));
}
