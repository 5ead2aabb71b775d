// What the lanelet harnesses share: poses, walks along the network, the reference curve of a lane.
#ifndef LANES_HPP_
#define LANES_HPP_
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/spline/catmull_rom_spline.hpp>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <traffic_simulator/lanelet_wrapper/distance.hpp>
#include <traffic_simulator/lanelet_wrapper/lane_change.hpp>
#include <traffic_simulator/lanelet_wrapper/lanelet_map.hpp>
#include <traffic_simulator/lanelet_wrapper/pose.hpp>
#include <traffic_simulator/lanelet_wrapper/route.hpp>
#include <traffic_simulator/utils/distance.hpp>
#include <traffic_simulator/utils/lanelet_map.hpp>
#include <traffic_simulator/utils/pose.hpp>
#include <traffic_simulator/utils/route.hpp>

#include "roads.hpp"

namespace lanes
{
using roads::Id;
using roads::Net;
using roads::V;
using traffic_simulator::CanonicalizedLaneletPose;
using traffic_simulator::LaneletPose;
using traffic_simulator::RoutingConfiguration;
using traffic_simulator::RoutingGraphType;
using geometry_msgs::msg::Pose;

inline LaneletPose pose(Id id, double s, double offset = 0, double yaw = 0)
{
  LaneletPose p;
  p.lanelet_id = id, p.s = s, p.offset = offset, p.rpy.z = yaw;
  return p;
}
inline std::string text(const LaneletPose & p)
{
  std::ostringstream t;
  t.precision(17);
  t << "(" << p.lanelet_id << ", " << p.s << ", offset " << p.offset << ", rpy " << p.rpy.x << " " << p.rpy.y << " " << p.rpy.z << ")";
  return t.str();
}
inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
inline double yawOf(const geometry_msgs::msg::Quaternion & q) { return std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z)); }
inline V at(const geometry_msgs::msg::Point & p) { return {p.x, p.y, p.z}; }
inline std::vector<geometry_msgs::msg::Point> points(const std::vector<V> & v)
{
  std::vector<geometry_msgs::msg::Point> r;
  for (auto & p : v) {
    geometry_msgs::msg::Point q;
    q.x = p.x, q.y = p.y, q.z = p.z;
    r.push_back(q);
  }
  return r;
}
/// the curve of a lane, built from its centre line (two points get a third between them)
inline std::shared_ptr<math::geometry::CatmullRomSpline> curve(const Net & net, Id id)
{
  auto c = net[id].center;
  if (c.size() == 2) c.insert(c.begin() + 1, (c[0] + c[1]) * 0.5);
  return std::make_shared<math::geometry::CatmullRomSpline>(points(c));
}
/// all (lane, s) that a pose may mean when it is moved on along some choice of connected lanes; over: s == length belongs to the next lane
struct Walk
{
  std::vector<std::pair<Id, double>> ends;  // s in range
  std::vector<std::pair<Id, double>> dead;  // no lane goes on there
  bool complete = true;
};
inline void walk(const Net & net, Id id, double s, Walk & w, bool over, bool straight, const std::vector<Id> * route, int depth = 0)
{
  if (w.ends.size() + w.dead.size() > 3000 || depth > 200) {
    w.complete = false;
    return;
  }
  const auto & l = net[id];
  if (s >= 0 && (over ? s < l.length : s <= l.length)) {
    w.ends.emplace_back(id, s);
    return;
  }
  auto others = s < 0 ? l.previous : l.next;
  if (straight) {
    std::vector<Id> preferred;
    for (auto o : others)
      if (net[o].turn == "straight") preferred.push_back(o);
    if (!preferred.empty()) others = preferred;
  }
  if (route && s >= 0) {
    std::vector<Id> on;
    for (auto o : others)
      if (std::count(route->begin(), route->end(), o)) on.push_back(o);
    others = on;
  }
  if (others.empty()) {
    w.dead.emplace_back(id, s);
    return;
  }
  for (auto o : others) walk(net, o, s < 0 ? s + net[o].length : s - l.length, w, over, straight, route, depth + 1);
}
/// whether a position is in the list, up to rounding (the end of a lane and the start of the next are the same place)
inline bool among(const std::vector<std::pair<Id, double>> & v, Id id, double s, double eps = 1e-6)
{
  for (auto & [i, t] : v)
    if (i == id && std::abs(t - s) <= eps) return true;
  return false;
}
/// close to a border between lanes, where rounding decides
inline bool atBorder(const Net & net, const Walk & w, double eps = 1e-9)
{
  for (auto * v : {&w.ends, &w.dead})
    for (auto & [i, t] : *v)
      if (std::abs(t) < eps || std::abs(t - net[i].length) < eps) return true;
  return false;
}
inline bool insidePolygon(const std::vector<V> & polygon, V p)
{
  bool in = false;
  for (std::size_t i = 0, j = polygon.size() - 1; i < polygon.size(); j = i++) {
    const auto &a = polygon[i], &b = polygon[j];
    if ((a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x) in = !in;
  }
  return in;
}
inline double toSegment2d(V p, V a, V b)
{
  const V d = b - a;
  const double l = d.x * d.x + d.y * d.y;
  const double t = l > 0 ? std::clamp(((p.x - a.x) * d.x + (p.y - a.y) * d.y) / l, 0.0, 1.0) : 0;
  return std::hypot(p.x - a.x - d.x * t, p.y - a.y - d.y * t);
}
inline std::vector<V> polygon(const Net & net, Id id)
{
  auto p = net[id].left_bound;
  auto r = net[id].right_bound;
  p.insert(p.end(), r.rbegin(), r.rend());
  return p;
}
inline double toBorder(const std::vector<V> & polygon, V p)
{
  double d = 1e300;
  for (std::size_t i = 0, j = polygon.size() - 1; i < polygon.size(); j = i++) d = std::min(d, toSegment2d(p, polygon[i], polygon[j]));
  return d;
}
/// a lane and a place well within it
inline LaneletPose somewhere(vf::Src & s, const Net & net, const std::vector<Id> & among, double side = 0.4)
{
  const Id id = s.pick(among);
  LaneletPose p = pose(id, net[id].length * s.uniform(0, 1));
  if (s.chance(60)) p.offset = s.uniform(-side, side) * net.nodes[0].width;
  return p;
}
}  // namespace lanes
#endif
