// Speed planning of non-ego entities: each step, whole approaches, running distance and approaches within a given time.
#include <traffic_simulator/behavior/longitudinal_speed_planning.hpp>

#include <scenario_simulator_exception/exception.hpp>

#include "vf.hpp"
using traffic_simulator::longitudinal_speed_planning::LongitudinalSpeedPlanner;
using traffic_simulator_msgs::msg::DynamicConstraints;
using geometry_msgs::msg::Accel;
using geometry_msgs::msg::Twist;

namespace
{
struct State
{
  Twist twist;
  Accel accel;
  double jerk = 0;
};
std::string text(const DynamicConstraints & k)
{
  std::ostringstream s;
  s.precision(17);
  s << "speed " << k.max_speed << ", acceleration " << k.max_acceleration << " by " << k.max_acceleration_rate << ", deceleration " << k.max_deceleration << " by " << k.max_deceleration_rate;
  return s.str();
}
DynamicConstraints constraints(vf::Src & s)
{
  DynamicConstraints k;
  k.max_speed = s.real(1, 60), k.max_acceleration = s.real(0.2, 12), k.max_acceleration_rate = s.real(0.2, 12), k.max_deceleration = s.real(0.2, 12), k.max_deceleration_rate = s.real(0.2, 12);
  return k;
}
bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(scale)); }
// the rule of one step, written out: the speed approaches the target without passing it, the acceleration never points away from it
State expected(double target, const DynamicConstraints & k, const State & now, double dt)
{
  target = std::min(target, k.max_speed);
  const double v = now.twist.linear.x, a = now.accel.linear.x, gap = (target - v) / dt;
  double next;
  if (gap >= 0) next = std::min({std::max(0.0, a + dt * k.max_acceleration_rate), k.max_acceleration, gap});
  else next = std::max({std::min(0.0, a - dt * k.max_deceleration_rate), -k.max_deceleration, gap});
  State e;
  e.twist = now.twist;
  e.twist.linear.x = std::max(-k.max_speed, std::min(k.max_speed, v + next * dt));
  e.twist.linear.y += now.accel.linear.y * dt, e.twist.linear.z += now.accel.linear.z * dt;
  e.twist.angular.x += now.accel.angular.x * dt, e.twist.angular.y += now.accel.angular.y * dt, e.twist.angular.z += now.accel.angular.z * dt;
  e.accel.linear.x = (e.twist.linear.x - v) / dt, e.accel.linear.y = now.accel.linear.y, e.accel.linear.z = now.accel.linear.z, e.accel.angular = now.accel.angular;
  e.jerk = (e.accel.linear.x - a) / dt;
  return e;
}
}  // namespace

VF_PROP("approach", 6000, 50000)
{
  const double dt = s.pick({0.05, 0.02, 0.1, 1.0 / 30});
  const auto k = constraints(s);
  LongitudinalSpeedPlanner planner(dt, "npc");
  State now;
  const bool stray = s.chance(20);
  now.twist.linear.x = stray ? s.real(-80, 80) : s.boolean() ? s.real(0, k.max_speed) : s.real(-k.max_speed, k.max_speed);
  now.accel.linear.x = s.chance(40) ? 0 : stray ? s.real(-20, 20) : s.real(-k.max_deceleration, k.max_acceleration);
  if (s.chance(30)) now.accel.linear.y = s.real(-2, 2), now.accel.angular.z = s.real(-2, 2), now.twist.angular.z = s.real(-1, 1), now.accel.angular.x = s.real(-1, 1), now.accel.linear.z = s.real(-1, 1);
  double target = s.chance(10) ? now.twist.linear.x + s.pick({0.0, 1e-9, -1e-9, 0.005, -0.005, 0.01, -0.01, 0.02}) : s.chance(10) ? k.max_speed * s.real(1, 2) : s.boolean() ? s.real(0, k.max_speed) : s.real(-k.max_speed, k.max_speed);
  target = std::max(target, -k.max_speed);
  c.log << "from " << now.twist.linear.x << " at " << now.accel.linear.x << " to " << target << " every " << dt << "; " << text(k) << "\n";
  const double v0 = now.twist.linear.x;
  c.require(planner.isAccelerating(target, now.twist) == (v0 <= target) && planner.isDecelerating(target, now.twist) == (v0 >= target), "the direction of the change is wrong");
  const double tolerance = s.real(0, 2);
  c.require(planner.isTargetSpeedReached(target, now.twist, tolerance) == (std::abs(target - v0) <= tolerance), "whether the target speed is reached within ", tolerance, " is wrong");
  c.require(planner.isTargetSpeedReached(target, now.twist) == (std::abs(target - v0) <= 0.01), "whether the target speed is reached is wrong");
  const double aim = std::min(target, k.max_speed);
  // every step but the last is at least as large as one of the rate or the limit
  const double rate = v0 <= aim ? k.max_acceleration_rate : k.max_deceleration_rate, limit = v0 <= aim ? k.max_acceleration : k.max_deceleration;
  const std::size_t bound = 10 + std::abs(aim - v0) / (std::min(rate * dt, limit) * dt);
  State start = now;
  std::size_t n = 0;
  double distance = 0;
  bool reached = std::abs(target - v0) <= 0.01;
  const bool reachable = target <= k.max_speed + 0.0099;
  for (; n < std::min<std::size_t>(bound, 5000); ++n) {
    const auto e = expected(target, k, now, dt);
    const auto [twist, accel, jerk] = planner.getDynamicStates(target, k, now.twist, now.accel);
    c.require(near(twist.linear.x, e.twist.linear.x, v0) && near(twist.linear.y, e.twist.linear.y, 1) && near(twist.linear.z, e.twist.linear.z, 1), "step ", n, " gives the speed ", twist.linear.x, " instead of ", e.twist.linear.x);
    c.require(near(twist.angular.x, e.twist.angular.x, 1) && near(twist.angular.y, e.twist.angular.y, 1) && near(twist.angular.z, e.twist.angular.z, 1), "step ", n, " gives another angular speed");
    c.require(near(accel.linear.x, e.accel.linear.x, 80 / dt) && near(accel.linear.y, e.accel.linear.y, 80 / dt) && near(accel.angular.z, e.accel.angular.z, 80 / dt) && near(accel.angular.x, e.accel.angular.x, 80 / dt), "step ", n, " gives the acceleration ", accel.linear.x,
      " instead of ", e.accel.linear.x);
    c.require(near(jerk, e.jerk, 80 / dt / dt), "step ", n, " gives the jerk ", jerk, " instead of ", e.jerk);
    // what users rely on
    const double v = now.twist.linear.x;
    if (std::abs(v) <= k.max_speed) {
      c.require(aim >= v ? twist.linear.x >= v - 1e-9 && twist.linear.x <= aim + 1e-9 : twist.linear.x <= v + 1e-9 && twist.linear.x >= aim - 1e-9, "step ", n, " goes from ", v, " to ", twist.linear.x, " on the way to ", aim);
      c.require(accel.linear.x <= k.max_acceleration + 1e-6 && accel.linear.x >= -k.max_deceleration - 1e-6, "step ", n, " accelerates by ", accel.linear.x);
    }
    now.twist = twist, now.accel = accel, now.jerk = jerk;
    if (!reached && reachable) {
      distance += twist.linear.x * dt + accel.linear.x * dt * dt / 2 + jerk * dt * dt * dt / 6;
      reached = std::abs(target - twist.linear.x) <= 0.01;
    }
    if (twist.linear.x == aim && (!reachable || reached) && accel.linear.x == 0) break;
  }
  if (std::abs(v0) <= k.max_speed && bound <= 5000) c.require(std::abs(now.twist.linear.x - aim) <= 1e-6, "after ", bound, " steps the speed is ", now.twist.linear.x, " instead of ", aim);
  if (reached && reachable) {
    const double d = planner.getRunningDistance(target, k, start.twist, start.accel, s.real(-1, 1));
    c.require(std::abs(d - distance) <= 1e-6 * (1 + std::abs(distance)), "the distance until the target speed is reached is ", d, " instead of ", distance);
  }
  if (n > 3) c.nontrivial(), c.label(v0 <= aim ? "faster" : "slower");
  if (!reachable) c.label("beyond the limit");
}

VF_PROP("in time", 4000, 15000)
{
  // a planned change of speed arrives when it should
  const double dt = s.pick({0.05, 0.02, 0.01});
  auto k = constraints(s);
  LongitudinalSpeedPlanner planner(dt, "npc");
  const bool up = s.boolean();
  State now;
  const double v0 = s.real(0, k.max_speed), target = up ? s.real(v0, k.max_speed) : s.real(0, v0), gap = std::abs(target - v0), sign = up ? 1 : -1;
  if (gap < 0.1) return;
  const double time = s.real(0.5, 20);
  // an acceleration in the direction of the change that does not already lead beyond it
  const double a0 = s.boolean() ? 0 : std::min({s.real(0, 2), (up ? k.max_acceleration : k.max_deceleration) * 0.9, gap / time * 0.9});
  now.twist.linear.x = v0, now.accel.linear.x = sign * a0;
  c.log << "from " << v0 << " at " << now.accel.linear.x << " to " << target << " in " << time << " every " << dt << "; " << text(k) << "\n";
  const double jerk = up ? k.max_acceleration_rate : k.max_deceleration_rate, most = up ? k.max_acceleration : k.max_deceleration;
  // how long it takes by the limits alone
  const double ramp = (most - a0) / jerk, gain = a0 * ramp + jerk * ramp * ramp / 2;
  const double ramping = gain < gap ? ramp : (-a0 + std::sqrt(a0 * a0 + 2 * jerk * gap)) / jerk, duration = gain < gap ? ramp + (gap - gain) / most : ramping;
  const double planned = planner.getAccelerationDuration(target, k, now.twist, now.accel);
  c.require(std::abs(planned - duration) <= 1e-6 + 0.011 / most, "the change takes ", planned, " instead of ", duration);
  // whether no acceleration, however large, can do it at this jerk
  const double short_by = gap - a0 * time - jerk * time * time / 2;
  if (std::abs(short_by) < 1e-6 || std::abs(time - ramping) < 1e-6) return;
  DynamicConstraints plan;
  if (short_by > 0 && time > ramping) {
    VF_THROWS(common::SemanticError, planner.planConstraintsFromJerkAndTimeConstraint(target, now.twist, now.accel, time, k));
    c.label("too fast");
    return;
  }
  plan = planner.planConstraintsFromJerkAndTimeConstraint(target, now.twist, now.accel, time, k);
  c.log << "planned " << text(plan) << "\n";
  c.require(plan.max_speed == k.max_speed && (up ? plan.max_acceleration > 0 && plan.max_acceleration_rate > 0 : plan.max_deceleration > 0 && plan.max_deceleration_rate > 0), "the plan has limits that are not positive");
  // a jerk that the plan raises may lead beyond the greatest acceleration, which then prevails
  const double end = a0 + (up ? plan.max_acceleration_rate : plan.max_deceleration_rate) * time;
  if (time < ramping && end > most) return;
  double t = 0;
  const int limit = time / dt * 2 + 100;
  for (int i = 0; i < limit && std::abs(now.twist.linear.x - target) >= 0.01; ++i, t += dt) {
    const auto [twist, accel, j] = planner.getDynamicStates(target, plan, now.twist, now.accel);
    now.twist = twist, now.accel = accel;
  }
  c.require(std::abs(now.twist.linear.x - target) < 0.01, "after ", t, " the speed is ", now.twist.linear.x);
  const double mean = gap / time;
  c.require(std::abs(t - time) <= 3 * dt + 0.02 / mean, "the target speed is reached after ", t);
  c.nontrivial();
  c.label(time < ramping ? "by jerk" : "by acceleration");
  c.label(up ? "faster" : "slower");
}
