// Following a trajectory in position mode: what one update does to an entity, and what comes of all of them.
#include "lanes.hpp"

#include <scenario_simulator_exception/exception.hpp>
#include <traffic_simulator/behavior/follow_trajectory.hpp>
#include <traffic_simulator/utils/pose.hpp>

using namespace lanes;
namespace ts = traffic_simulator;
namespace ft = traffic_simulator::follow_trajectory;
using Status = traffic_simulator_msgs::msg::EntityStatus;
using Trajectory = traffic_simulator_msgs::msg::PolylineTrajectory;
using Behavior = traffic_simulator_msgs::msg::BehaviorParameter;

namespace
{
const double never = std::numeric_limits<double>::quiet_NaN();
double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V along(const geometry_msgs::msg::Quaternion & q)
{
  return {1 - 2 * (q.y * q.y + q.z * q.z), 2 * (q.x * q.y + q.w * q.z), 2 * (q.x * q.z - q.w * q.y)};
}
geometry_msgs::msg::Quaternion facing(V d)
{
  const double yaw = std::atan2(d.y, d.x), pitch = -std::atan2(d.z, std::hypot(d.x, d.y));
  geometry_msgs::msg::Quaternion q;
  q.w = std::cos(pitch / 2) * std::cos(yaw / 2), q.x = -std::sin(pitch / 2) * std::sin(yaw / 2), q.y = std::sin(pitch / 2) * std::cos(yaw / 2), q.z = std::cos(pitch / 2) * std::sin(yaw / 2);
  return q;
}
Behavior anyBehavior(vf::Src & s)
{
  Behavior b;
  auto & d = b.dynamic_constraints;
  d.max_speed = s.uniform(5, 30);
  d.max_acceleration = s.uniform(1, 10), d.max_deceleration = s.uniform(1, 10);
  d.max_acceleration_rate = s.uniform(1, 10), d.max_deceleration_rate = s.uniform(1, 10);
  switch (s.index(8)) {
    case 0:  // the usual ones of vehicles
    case 3:
      d.max_acceleration = d.max_deceleration = 10, d.max_acceleration_rate = d.max_deceleration_rate = 3;
      break;
    case 1:  // those of pedestrians
      d.max_acceleration = d.max_deceleration = d.max_acceleration_rate = d.max_deceleration_rate = 1;
      break;
    case 2: break;
    default: d.max_acceleration_rate = d.max_deceleration_rate; break;
  }
  return b;
}
std::string text(const Status & s)
{
  std::ostringstream t;
  t.precision(10);
  t << "t " << s.time << " at " << s.pose.position.x << " " << s.pose.position.y << " " << s.pose.position.z << " v " << s.action_status.twist.linear.x << " a " << s.action_status.accel.linear.x;
  if (s.lanelet_pose_valid) t << " lane " << s.lanelet_pose.lanelet_id << " s " << s.lanelet_pose.s << " offset " << s.lanelet_pose.offset << " yaw " << s.lanelet_pose.rpy.z;
  return t.str();
}
std::string text(const Trajectory & t, const Behavior & b)
{
  std::ostringstream o;
  o.precision(17);
  o << (t.closed ? "closed" : "open") << " base " << t.base_time << ":";
  for (auto & v : t.shape.vertices) o << " (" << v.position.position.x << " " << v.position.position.y << " " << v.position.position.z << " @" << v.time << ")";
  const auto & d = b.dynamic_constraints;
  o << "\nlimits " << d.max_speed << " +" << d.max_acceleration << " -" << d.max_deceleration << " rates +" << d.max_acceleration_rate << " -" << d.max_deceleration_rate;
  return o.str();
}
struct Journey
{
  Status status;
  Trajectory trajectory;
  Behavior behavior;
  double dt = 0.1;
  bool straight = false;  // all waypoints lie on one line
  std::optional<double> target;
};
/// how long it takes at most to come to a speed and to a halt again
double easily(const Journey & j, double length, double speed)
{
  const auto & d = j.behavior.dynamic_constraints;
  const double up = speed / d.max_acceleration + d.max_acceleration / d.max_acceleration_rate, down = speed / d.max_deceleration + d.max_deceleration / d.max_deceleration_rate + 2 * std::sqrt(speed / std::min(d.max_deceleration_rate, d.max_acceleration_rate));
  return length / speed + up + down;
}
bool same(const std::vector<traffic_simulator_msgs::msg::Vertex> & a, const std::vector<traffic_simulator_msgs::msg::Vertex> & b)
{
  bool r = a.size() == b.size();
  for (std::size_t i = 0; r && i < a.size(); ++i) r = (std::isnan(a[i].time) ? std::isnan(b[i].time) : a[i].time == b[i].time) && norm(at(a[i].position.position) - at(b[i].position.position)) == 0;
  return r;
}
struct Outcome
{
  bool arrived = false, refused = false;
  std::size_t steps = 0, passed = 0;
  std::string why;
};
/// goes on update by update until the end; `free` tells that no lane is near
Outcome drive(Journey & j, vf::Case & c, std::size_t steps, bool free, const std::function<void(Status &)> & settle = {})
{
  Outcome o;
  const auto & d = j.behavior.dynamic_constraints;
  bool usual = true;  // nothing is out of its limits so far
  double speed_limit = d.max_speed;
  for (; o.steps < steps; ++o.steps) {
    const auto before = j.status;
    auto rest = j.trajectory;
    std::optional<Status> next;
    const double v = before.action_status.twist.linear.x, a = before.action_status.accel.linear.x;
    try {
      next = ft::makeUpdatedStatus(before, j.trajectory, j.behavior, j.dt, 1.0, j.target);
    } catch (const common::Error & e) {
      o.refused = true, o.why = e.what();
      return o;
    }
    // which waypoints have been passed
    std::size_t dropped = 0;
    while (dropped < rest.shape.vertices.size() && !same(rest.shape.vertices, j.trajectory.shape.vertices)) {
      const auto & w = rest.shape.vertices[1];
      const double far = norm(at(w.position.position) - at(before.pose.position)), reach = (v + std::max(0.0, std::min(d.max_acceleration, a + d.max_acceleration_rate * j.dt)) * j.dt / 2) * j.dt;
      c.require(rest.shape.vertices.size() > 2, "the last waypoint is dropped; ", text(before));
      if (free) c.require(far <= reach * (1 + 1e-6) + 1e-6, "a waypoint is passed ", far, " m away with a reach of ", reach, "; ", text(before));
      if (!std::isnan(w.time)) {
        const double left = (std::isnan(rest.base_time) ? 0 : rest.base_time) + w.time - before.time;
        c.require(left < j.dt / 2 + 1e-6 && left > -j.dt - 1e-6, "a waypoint is passed ", left, " s before its time; ", text(before));
        if (!std::isnan(rest.base_time)) rest.base_time = before.time;
      }
      std::rotate(rest.shape.vertices.begin(), rest.shape.vertices.begin() + 1, rest.shape.vertices.end());
      if (!rest.closed) rest.shape.vertices.pop_back();
      ++dropped, ++o.passed;
    }
    c.require(same(rest.shape.vertices, j.trajectory.shape.vertices), "the waypoints have changed at ", text(before), "\n", text(j.trajectory, j.behavior));
    c.require(std::isnan(rest.base_time) == std::isnan(j.trajectory.base_time) && (std::isnan(rest.base_time) || std::abs(rest.base_time - j.trajectory.base_time) < 1e-9), "the base time is ", j.trajectory.base_time, " instead of ", rest.base_time, " at ", text(before));
    c.require(rest.closed == j.trajectory.closed && rest.dynamic_constraints_ignorable == j.trajectory.dynamic_constraints_ignorable, "the trajectory has changed");
    const auto & w = rest.shape.vertices;
    const V here = at(before.pose.position), goal = at(w[1].position.position);
    if (!next) {
      o.arrived = true;
      c.require(w.size() == 2, "the end is reached with ", w.size() - 1, " waypoints left; ", text(before));
      c.require(std::abs(v) < 1e-9 && std::abs(a) < 1e-9, "it is over while the entity moves; ", text(before));
      if (free) c.require(norm(goal - here) <= 0.1 + 1e-9, "it is over ", norm(goal - here), " m away from the last waypoint");
      if (!std::isnan(w[1].time)) {
        const double left = (std::isnan(rest.base_time) ? 0 : rest.base_time) + w[1].time - before.time;
        c.require(left < j.dt / 2 + 1e-6 && left > -j.dt - 1e-6, "it is over ", left, " s before its time; ", text(before));
      }
      return o;
    }
    auto & n = *next;
    c.require(n.name == before.name && n.type.type == before.type.type && n.bounding_box.dimensions.x == before.bounding_box.dimensions.x, "the entity is another one");
    c.require(std::abs(n.time - before.time - j.dt) < 1e-9, "the time goes from ", before.time, " to ", n.time);
    c.require(!n.lanelet_pose_valid, "the lanelet pose is said to be valid");
    const double u = n.action_status.twist.linear.x, b = n.action_status.accel.linear.x;
    const bool timed = std::any_of(w.begin() + 1, w.end(), [](auto & x) { return !std::isnan(x.time); });
    speed_limit = !timed && j.target ? *j.target : d.max_speed;
    // the motion itself
    c.require(u >= -1e-9, "it goes backwards, ", text(n));
    c.require(n.action_status.twist.linear.y == 0 && n.action_status.twist.linear.z == 0, "it goes sideways");
    c.require(std::abs(b - (u - v) / j.dt) < 1e-6, "the acceleration is ", b, " from ", v, " to ", u, " m/s");
    usual = usual && v <= speed_limit + 1e-9 && v + std::max(0.0, a) * std::abs(a) / d.max_deceleration_rate / 2 <= speed_limit + 1e-6;
    if (v <= speed_limit + 1e-9 && usual) c.require(u <= speed_limit + 1e-6, "it is too fast: ", u, " instead of ", speed_limit, " after ", text(before));
    const double end = norm(goal - here);
    const bool stopping = w.size() == 2 && (free ? end <= 0.1 + 1e-9 : norm2d(goal - here) <= 0.3);
    c.require(b >= -d.max_deceleration - 1e-6, "it brakes with ", b, " after ", text(before));
    if (usual) c.require(b <= d.max_acceleration + 1e-6, "it accelerates with ", b, " after ", text(before));
    if (usual && !stopping && v + (a + d.max_acceleration_rate * j.dt) * j.dt >= 0 && v + (a - d.max_deceleration_rate * j.dt) * j.dt <= speed_limit) {
      c.require(b <= a + d.max_acceleration_rate * j.dt + 1e-6, "the acceleration goes from ", a, " to ", b);
      c.require(b >= a - d.max_deceleration_rate * j.dt - 1e-6, "the acceleration goes from ", a, " to ", b);
    }
    // where it goes
    const V leg = goal - at(w[0].position.position);
    const V gone = at(n.pose.position) - here;
    const double way = (std::abs(v) + u) / 2 * j.dt;
    if (free) {
      c.require(std::abs(norm(gone) - way) < 1e-6 * (1 + way), "it goes ", norm(gone), " m instead of ", way, "; ", text(before), " then ", text(n));
      if (way > 1e-5) {
        const V to = end > 1e-9 ? (goal - here) * (1 / end) : along(before.pose.orientation), ahead = along(before.pose.orientation);
        const double towards = dot(gone, to) / norm(gone), on = dot(gone, ahead) / norm(gone);
        if (!stopping && u > 1e-12 && end > 1e-6) c.require((u + v < 0.05 ? std::abs(towards) : towards) > 1 - 1e-6, "it goes elsewhere than to its waypoint (", towards, "); ", text(before), " then ", text(n));
        else if (end > 1e-6 && u + v > 0.05) c.require(towards > 1 - 1e-6 || on > 1 - 1e-6, "it stops elsewhere; ", text(before), " then ", text(n));
      }
    } else {
      // at the end of a lane, the position is made to fit the next one
      const bool inside = before.lanelet_pose_valid && before.lanelet_pose.s + 2 * way + 0.1 < ts::lanelet_wrapper::lanelet_map::laneletLength(before.lanelet_pose.lanelet_id);
      if (inside || !before.lanelet_pose_valid) c.require(std::abs(norm(gone) - way) < 0.01 * way + 1e-6, "it goes ", norm(gone), " m instead of ", way, "; ", text(before), " then ", text(n));
    }
    if (norm(leg) > 1e-6) c.require(dot(along(n.pose.orientation), leg) / norm(leg) > 1 - 1e-9, "it faces another way than from waypoint to waypoint; ", text(n));
    c.log << text(n) << "\n";
    j.status = n;
    if (settle) settle(j.status);
  }
  return o;
}
struct Empty
{
  std::unique_ptr<roads::Net> net;
};
/// waypoints far from any lane
Journey anyJourney(vf::Src & s, double & length, std::size_t most = 6)
{
  Journey j;
  j.dt = s.pick({0.05, 0.1, 1.0 / 30});
  j.behavior = anyBehavior(s);
  j.status.lanelet_pose_valid = false;
  j.status.name = "e", j.status.type.type = static_cast<std::uint8_t>(s.integer(0, 3));
  j.status.bounding_box.dimensions.x = 4, j.status.bounding_box.dimensions.y = 2, j.status.bounding_box.dimensions.z = 1.5;
  j.status.time = s.chance(50) ? 0 : s.uniform(0, 50);
  j.status.pose.position.x = 50000 + s.uniform(-50, 50), j.status.pose.position.y = 50000 + s.uniform(-50, 50), j.status.pose.position.z = s.chance(50) ? 0 : s.uniform(-5, 5);
  traffic_simulator_msgs::msg::Vertex v;
  v.time = never;
  v.position.position = j.status.pose.position;
  j.trajectory.shape.vertices.push_back(v);
  double yaw = s.uniform(-M_PI, M_PI);
  j.straight = s.chance(60);
  double slope = s.chance(25) ? s.uniform(-0.1, 0.1) : 0;
  j.status.pose.orientation = facing({std::cos(yaw), std::sin(yaw), 0});
  length = 0;
  for (std::size_t k = s.length(1, most); k-- > 0;) {
    const double leg = s.uniform(1, 40);
    if (!j.straight) yaw += s.chance(30) ? s.uniform(-M_PI, M_PI) : s.uniform(-0.7, 0.7);
    v.position.position.x += leg * std::cos(yaw), v.position.position.y += leg * std::sin(yaw);
    if (!j.straight && s.chance(25)) slope = s.uniform(-0.1, 0.1);
    const double rise = slope * leg;
    v.position.position.z += rise;
    length += std::hypot(leg, rise);
    j.trajectory.shape.vertices.push_back(v);
  }
  j.trajectory.dynamic_constraints_ignorable = true, j.trajectory.closed = false;
  j.trajectory.base_time = never;
  return j;
}
roads::Net & nowhere()
{
  static const auto net = [] {
    vf::Src s;
    s.replay({});
    return roads::generate(s, {});
  }();
  net->activate();
  return *net;
}
}  // namespace

VF_PROP("untimed", 200, 200000)
{
  nowhere();
  double length = 0;
  auto j = anyJourney(s, length);
  j.trajectory.closed = s.chance(15) && j.trajectory.shape.vertices.size() > 2;
  if (s.chance(50)) j.trajectory.base_time = j.status.time;
  const double top = j.behavior.dynamic_constraints.max_speed;
  if (s.chance(50)) j.target = s.chance(90) ? s.uniform(0.5, 1.2) * top : 0.0;
  const double limit = std::min(top, j.target.value_or(top));
  if (s.chance(50)) j.status.action_status.twist.linear.x = s.uniform(0, limit);
  c.log << text(j.trajectory, j.behavior) << "\ntarget " << j.target.value_or(-1) << " every " << j.dt << "\n" << text(j.status) << "\n";
  const auto first = j.trajectory;
  const auto & d = j.behavior.dynamic_constraints;
  const bool even = d.max_acceleration_rate == d.max_deceleration_rate;
  const double v = j.status.action_status.twist.linear.x;
  // the way it takes to stop from the speed it begins with
  const double halt = v * (v / d.max_deceleration + d.max_deceleration / d.max_deceleration_rate + 2 * std::sqrt(v / std::min(d.max_deceleration_rate, d.max_acceleration_rate)));
  const bool fits = length > 1.5 * halt + 2;
  const double enough = limit > 0 ? 3 * easily(j, length, limit) + 10 : 10;
  const auto o = drive(j, c, static_cast<std::size_t>((j.trajectory.closed ? 2 : 1) * std::min(enough, 60.0) / j.dt), true);
  if (j.trajectory.closed) {
    c.require(!o.arrived, "a closed trajectory ends");
    c.label("closed");
    if (o.passed >= first.shape.vertices.size()) c.nontrivial();
    return;
  }
  if (j.target && *j.target == 0) {
    c.label("nothing to do");
    c.require(!o.arrived, "it arrives without being allowed to move");
    return;
  }
  if (o.refused) {
    c.label("refused");
    c.require(!(fits && even && j.straight), "it does not get there: ", o.why);
    return;
  }
  if (enough < 60 && fits) {
    c.require(o.arrived || !even || !j.straight, "it does not arrive within ", enough, " s; ", text(j.status));
    c.label(o.arrived ? "arrived" : "never there");
    c.nontrivial();
  }
}

VF_PROP("timed", 200, 200000)
{
  nowhere();
  double length = 0;
  auto j = anyJourney(s, length);
  const bool relative = s.boolean();
  auto & w = j.trajectory.shape.vertices;
  const double top = j.behavior.dynamic_constraints.max_speed;
  // times at which an easy journey passes
  double clock = relative ? 0 : j.status.time, way = 0, speed = s.uniform(0.2, 0.5) * top;
  if (relative) j.trajectory.base_time = j.status.time;
  const bool hurry = s.chance(15);
  std::size_t times = 0;
  bool whole = true, only = false;  // times are whole steps away
  for (std::size_t k = 1; k < w.size(); ++k) {
    way += norm(at(w[k].position.position) - at(w[k - 1].position.position));
    if (k + 1 == w.size() ? s.chance(60) || !times : s.chance(35)) {
      const double t = hurry ? s.uniform(0.3, 1) * way / top : easily(j, way, speed) * s.uniform(1, 1.5) + 2;
      // relative times begin anew at every waypoint with a time
      const double steps = std::ceil(t / j.dt);
      w[k].time = (relative ? 0 : clock) + steps * j.dt;
      if (s.chance(30)) w[k].time += (t / j.dt - steps) * j.dt, whole = false;
      only = k + 1 != w.size();
      clock = w[k].time;
      way = 0, ++times;
    }
  }
  if (s.chance(40)) j.target = s.uniform(0.3, 1.2) * top;
  c.log << text(j.trajectory, j.behavior) << "\ntarget " << j.target.value_or(-1) << " every " << j.dt << "\n" << text(j.status) << "\n";
  const auto o = drive(j, c, static_cast<std::size_t>(150 / j.dt), true);
  c.label(o.arrived ? "arrived" : o.refused ? "refused" : "on the way");
  if (o.arrived) c.nontrivial();
  c.require(o.arrived || hurry || !whole || times != 1 || only || !j.straight || j.behavior.dynamic_constraints.max_acceleration_rate != j.behavior.dynamic_constraints.max_deceleration_rate, "it does not arrive: ", o.why, "\n", text(j.status));
}

VF_PROP("lanes", 60, 100000)
{
  auto net = roads::generate(s, {});
  net->activate();
  Journey j;
  j.dt = s.pick({0.1, 0.05, 1.0 / 30});
  auto & d = j.behavior.dynamic_constraints;
  const bool walker = s.chance(30);
  d.max_speed = walker ? s.uniform(1, 3) : s.uniform(5, 25);
  d.max_acceleration = d.max_deceleration = walker ? 1 : 10, d.max_acceleration_rate = d.max_deceleration_rate = walker ? 1 : 3;
  j.status.name = "e", j.status.type.type = walker ? traffic_simulator_msgs::msg::EntityType::PEDESTRIAN : traffic_simulator_msgs::msg::EntityType::VEHICLE;
  j.status.bounding_box.dimensions.x = walker ? 0.8 : 4, j.status.bounding_box.dimensions.y = walker ? 0.8 : 1.8, j.status.bounding_box.dimensions.z = 1.5;
  j.status.time = 0;
  auto p = somewhere(s, *net, net->ids, 0.2);
  std::vector<std::pair<double, Pose>> places;
  double length = 0;
  traffic_simulator_msgs::msg::Vertex v;
  v.time = never;
  for (std::size_t k = 1 + s.length(1, 5); k-- > 0;) {
    v.position = ts::pose::toMapPose(CanonicalizedLaneletPose(p));
    j.trajectory.shape.vertices.push_back(v);
    double step = s.uniform(2, 30);
    for (int over = 0; over < 20; ++over) {
      const auto & l = net->lanes.at(p.lanelet_id);
      if (p.s + step < l.length || l.next.empty()) break;
      step -= l.length - p.s;
      p.lanelet_id = s.pick(l.next), p.s = 0;
    }
    const double rest = net->lanes.at(p.lanelet_id).length - p.s;
    if (rest < 2) break;
    length += std::min(step, rest - 0.5);
    p.s += std::min(step, rest - 0.5);
  }
  auto & w = j.trajectory.shape.vertices;
  if (w.size() < 2) return;
  j.status.pose = w[0].position;
  const auto settle = [&](Status & x) {
    const auto q = ts::pose::toCanonicalizedLaneletPose(x.pose, x.bounding_box, walker, 1.0);
    x.lanelet_pose_valid = q.has_value();
    if (q) x.lanelet_pose = static_cast<LaneletPose>(*q);
  };
  settle(j.status);
  j.trajectory.dynamic_constraints_ignorable = true, j.trajectory.closed = false, j.trajectory.base_time = never;
  if (s.chance(40)) j.target = s.uniform(0.5, 1.2) * d.max_speed;
  c.log << net->text << "\n" << text(j.trajectory, j.behavior) << "\ntarget " << j.target.value_or(-1) << " every " << j.dt << "\n" << text(j.status) << "\n";
  const V goal = at(w.back().position.position);
  const auto o = drive(j, c, static_cast<std::size_t>(90 / j.dt), false, settle);
  c.label(o.arrived ? "arrived" : o.refused ? "refused" : "never there");
  if (!o.arrived) return;
  c.nontrivial();
  const double far = norm2d(goal - at(j.status.pose.position));
  c.require(far < 0.3, "the entity ends ", far, " m away from the last waypoint; ", text(j.status));
}

VF_PROP("refused", 100, 20000)
{
  nowhere();
  double length = 0;
  auto j = anyJourney(s, length);
  const auto good = j;
  auto target = [&](auto & v) { (s.boolean() ? v.x : s.boolean() ? v.y : v.z) = s.pick({never, std::numeric_limits<double>::infinity()}); };
  const auto what = s.index(9);
  auto & a = j.status.action_status;
  switch (what) {
    case 0: target(j.status.pose.position); break;
    case 1: target(a.accel.linear); break;
    case 2: target(a.accel.angular); break;
    case 3: target(a.twist.linear); break;
    case 4: target(a.twist.angular); break;
    case 5: target(j.trajectory.shape.vertices[s.index(2)].position.position); break;
    case 7: j.trajectory.shape.vertices.resize(s.index(2)); break;
    case 6: j.trajectory.dynamic_constraints_ignorable = false; break;
    default:  // too late
      j.trajectory.shape.vertices.back().time = j.status.time - j.dt * s.uniform(1.01, 5);
      break;
  }
  c.log << what << "\n" << text(j.trajectory, j.behavior) << "\n" << text(j.status);
  c.nontrivial();
  VF_THROWS(common::Error, ft::makeUpdatedStatus(j.status, j.trajectory, j.behavior, j.dt, 1.0, j.target));
  auto k = good;
  ft::makeUpdatedStatus(k.status, k.trajectory, k.behavior, k.dt, 1.0, k.target);  // the same without the defect
}
