// What the ego is told about itself: the noise of odometry, velocity, pose and inertial measurements, and the inertial sensor.
#include <concealer/publisher.hpp>
#include <simple_sensor_simulator/sensor_simulation/imu/imu_sensor.hpp>
#include <simulation_interface/conversions.hpp>

#include <Eigen/Geometry>

#include "geo.hpp"
using namespace geo;
using nav_msgs::msg::Odometry;
using autoware_vehicle_msgs::msg::VelocityReport;
using geometry_msgs::msg::PoseWithCovarianceStamped;
using sensor_msgs::msg::Imu;

namespace
{
int count = 0;
// the errors of one quantity: of the value (multiplicative), and to be added
struct Error
{
  double mean = 0, sd = 0, rate = 0, rate_sd = 0;
  double of(double v) const { return v * (1 + rate) + mean; }
  double spread(double v) const { return std::hypot(sd, v * rate_sd); }
};
using Errors = std::map<std::string, Error>;
void set(const std::string & n, double v) { shim::parameter_overrides()[n] = rclcpp::ParameterValue(v); }
enum Shape { NONE, MEANS, SPREADS };
Errors errors(vf::Src & s, vf::Case & c, const std::string & topic, const std::string & type, const std::vector<std::string> & names, Shape shape)
{
  Errors all;
  for (auto & n : names) {
    auto & e = all[n];
    if (shape != NONE && s.chance(75)) {
      const double size = n.find("orientation") == 0 && n.find("cov") == std::string::npos ? 0.1 : 2;
      if (s.chance(80)) e.mean = s.uniform(-size, size);
      if (s.chance(70)) e.rate = s.uniform(-0.5, 0.5);
      if (shape == SPREADS) {
        if (s.chance(80)) e.sd = s.uniform(0.1, 1) * size;
        if (s.chance(50)) e.rate_sd = s.uniform(0.05, 0.5);
      }
    }
    const auto base = topic + "." + type + "." + n + ".error.";
    set(base + "additive.mean", e.mean), set(base + "additive.standard_deviation", e.sd);
    set(base + "multiplicative.mean", e.rate), set(base + "multiplicative.standard_deviation", e.rate_sd);
    if (e.mean || e.sd || e.rate || e.rate_sd) c.log << n << ": +" << e.mean << "~" << e.sd << " *" << e.rate << "~" << e.rate_sd << "\n";
  }
  return all;
}
void seed(const std::string & topic, int value) { shim::parameter_overrides()[topic + ".seed"] = rclcpp::ParameterValue(value); }

// a publisher, and what it publishes
template <class Message>
struct Channel
{
  std::string topic;
  rclcpp::Node node{"node"};
  concealer::Publisher<Message, concealer::NormalDistribution> publish{topic, node};
  explicit Channel(std::string t) : topic(std::move(t)) {}
  Message operator()(const Message & m)
  {
    auto & t = shim::topics<Message>()[topic];
    const auto before = t.published;
    publish(m);
    if (t.published != before + 1) throw vf::Failure("a message is published " + std::to_string(t.published - before) + " times");
    return *t.history.back();
  }
};
std::string topic() { return "/noise" + std::to_string(++count % 4); }

Eigen::Quaterniond eigen(const Quat & q) { return {q.w, q.x, q.y, q.z}; }
double between(const Quat & a, const Quat & b)
{
  const Eigen::Quaterniond p = eigen(a), q = eigen(b);
  return 2 * std::atan2((p.conjugate() * q).vec().norm(), std::abs((p.conjugate() * q).w()));
}
bool close(double a, double b, double tolerance = 1e-9) { return std::abs(a - b) <= tolerance * (1 + std::abs(b)); }
void same(vf::Case & c, const char * what, double is, double should, double tolerance = 1e-9)
{
  c.require(close(is, should, tolerance), what, " is ", is, " instead of ", should);
}

// mean and deviation of samples, judged at more than six standard errors
struct Samples
{
  double n = 0, sum = 0, squares = 0, first = 0;
  void add(double v)
  {
    if (!n) first = v;
    ++n, sum += v - first, squares += (v - first) * (v - first);
  }
  void judge(vf::Case & c, const std::string & what, double mean, double sd, double tolerance = 1e-9) const
  {
    const double m = first + sum / n, var = std::max(0.0, squares / n - (sum / n) * (sum / n));
    c.require(std::abs(m - mean) <= 7 * sd / std::sqrt(n) + tolerance * (1 + std::abs(mean)), what, " is ", m, " on average instead of ", mean, " (deviation ", sd, ", ", n, " samples)");
    // the product of a constant and a normal plus a normal is normal: the deviation of the deviation is sd / sqrt(2 n)
    c.require(std::abs(std::sqrt(var) - sd) <= 7 * sd / std::sqrt(2 * n) + tolerance * (1 + std::abs(mean)), what, " varies by ", std::sqrt(var), " instead of ", sd, " (", n, " samples)");
  }
};
const int SAMPLES = 400;

Shape shape(vf::Src & s, vf::Case & c)
{
  const auto k = s.pick({MEANS, SPREADS, NONE, MEANS});
  c.label(k == NONE ? "no noise" : k == MEANS ? "means" : "spreads");
  return k;
}
int someSeed(vf::Src & s) { return static_cast<int>(1 + s.draw(2147483646)); }

// two publishers with the same seed agree
template <class Message, class Equal>
void repeat(vf::Case & c, const std::string & topic, const Message & m, Equal equal)
{
  Channel<Message> a(topic), b(topic);
  for (int i = 0; i < 3; ++i) c.require(equal(a(m), b(m)), "the same seed gives different noise");
}
}  // namespace

VF_PROP("odometry", 3000, 200000)
{
  shim::parameter_overrides().clear();
  const auto t = topic();
  const auto kind = shape(s, c);
  const std::vector<std::string> p{"pose.pose.position.local_x", "pose.pose.position.local_y", "pose.pose.position.local_z"}, o{"pose.pose.orientation.r", "pose.pose.orientation.p", "pose.pose.orientation.y"},
    v{"twist.twist.linear.x", "twist.twist.linear.y", "twist.twist.linear.z", "twist.twist.angular.x", "twist.twist.angular.y", "twist.twist.angular.z"};
  std::vector<std::string> names = p;
  names.insert(names.end(), v.begin(), v.end());
  auto e = errors(s, c, t, "nav_msgs::msg::Odometry", names, kind);
  // turns: none, about one axis, or about all
  const auto axes = s.draw(5);
  std::array<Error, 3> turn;
  for (std::size_t i = 0; i < 3; ++i) {
    if (kind != NONE && (axes == 4 || axes == i + 1)) turn[i].mean = s.uniform(-0.3, 0.3);
    if (kind == SPREADS && axes == 4) turn[i].sd = s.uniform(0, 0.05);
    const auto base = t + ".nav_msgs::msg::Odometry." + o[i] + ".error.";
    set(base + "additive.mean", turn[i].mean), set(base + "additive.standard_deviation", turn[i].sd), set(base + "multiplicative.mean", 0), set(base + "multiplicative.standard_deviation", 0);
    if (turn[i].mean || turn[i].sd) c.log << o[i] << ": +" << turn[i].mean << "~" << turn[i].sd << "\n";
  }
  const int number = someSeed(s);
  seed(t, number);
  Odometry m;
  m.header.frame_id = "map", m.child_frame_id = "base_link";
  const bool flat = s.chance(50);
  const double yaw = s.uniform(-3.1, 3.1);
  m.pose.pose.orientation = flat ? rpyQuat(0, 0, yaw) : rpyQuat(s.uniform(-0.5, 0.5), s.uniform(-0.5, 0.5), yaw);
  m.pose.pose.position = genPoint(s);
  m.twist.twist.linear = genVec(s, 10), m.twist.twist.angular = genVec(s, 2);
  if (s.chance(20)) m.twist.twist.linear.x = 0;
  if (s.chance(20)) m.twist.twist.linear = vec(0, 0, 0);
  const double speed = std::sqrt(std::pow(m.twist.twist.linear.x, 2) + std::pow(m.twist.twist.linear.y, 2) + std::pow(m.twist.twist.linear.z, 2));
  double threshold = s.pick({0.0, 0.5, 5.0, speed * 0.99, speed * 1.01, 100.0});
  if (threshold > 0 && std::abs(threshold - speed) < 1e-9) threshold = 0;
  set(t + ".nav_msgs::msg::Odometry.speed_threshold", threshold);
  c.log << "seed " << number << ", threshold " << threshold << ", speed " << speed << ", yaw " << yaw << (flat ? ", flat" : "") << "\n";
  Channel<Odometry> channel(t);
  const auto q0 = eigen(m.pose.pose.orientation);
  const auto local = [&](const Odometry & n) -> Eigen::Vector3d {
    return q0.conjugate() * Eigen::Vector3d(n.pose.pose.position.x - m.pose.pose.position.x, n.pose.pose.position.y - m.pose.pose.position.y, n.pose.pose.position.z - m.pose.pose.position.z);
  };
  const auto values = [](const Odometry & n) { return std::array<double, 6>{n.twist.twist.linear.x, n.twist.twist.linear.y, n.twist.twist.linear.z, n.twist.twist.angular.x, n.twist.twist.angular.y, n.twist.twist.angular.z}; };
  const auto before = values(m);
  if (kind == NONE || speed < threshold) {
    const auto n = channel(m);
    for (int i = 0; i < 6; ++i) same(c, v[i].c_str(), values(n)[i], before[i]);
    c.require(local(n).norm() < 1e-9 && between(m.pose.pose.orientation, n.pose.pose.orientation) < 1e-6, "the pose changes without noise");
    if (speed < threshold) c.label("slow");
    return;
  }
  c.nontrivial();
  repeat(c, t, m, [](auto a, auto b) { return a == b; });
  std::array<Samples, 9> samples;
  double most = 0;
  for (int i = kind == MEANS ? 3 : SAMPLES; i; --i) {
    const auto n = channel(m);
    c.require(n.header == m.header && n.child_frame_id == m.child_frame_id, "the noise changes the frame");
    for (int k = 0; k < 6; ++k) samples[k].add(values(n)[k]);
    for (int k = 0; k < 3; ++k) samples[6 + k].add(local(n)[k]);
    most = std::max(most, between(m.pose.pose.orientation, n.pose.pose.orientation));
  }
  for (int k = 0; k < 6; ++k) samples[k].judge(c, v[k], e[v[k]].of(before[k]), e[v[k]].spread(before[k]));
  for (int k = 0; k < 3; ++k) samples[6 + k].judge(c, p[k], e[p[k]].of(0), e[p[k]].spread(0), 1e-7);
  // turns
  double bound = 0;
  for (auto & x : turn) bound += std::abs(x.mean) + 9 * x.sd;
  c.require(most <= bound + 1e-6, "the orientation is off by ", most, ", but the errors make at most ", bound);
  if (axes >= 1 && axes <= 3) {
    const double only = std::abs(turn[axes - 1].mean);
    c.require(std::abs(most - only) < 1e-6, "the orientation is off by ", most, " instead of ", only);
    const auto n = channel(m);
    if (flat && axes == 3) c.require(between(rpyQuat(0, 0, yaw + turn[2].mean), n.pose.pose.orientation) < 1e-6, "the heading is not turned by ", turn[2].mean);
  }
}

VF_PROP("velocity report", 3000, 200000)
{
  shim::parameter_overrides().clear();
  const auto t = topic();
  const auto kind = shape(s, c);
  const std::vector<std::string> v{"longitudinal_velocity", "lateral_velocity", "heading_rate"};
  auto e = errors(s, c, t, "autoware_vehicle_msgs::msg::VelocityReport", v, kind);
  const int number = someSeed(s);
  seed(t, number);
  VelocityReport m;
  m.header.frame_id = "base_link";
  m.longitudinal_velocity = s.chance(20) ? 0 : s.uniform(-20, 20), m.lateral_velocity = s.chance(40) ? 0 : s.uniform(-5, 5), m.heading_rate = s.uniform(-2, 2);
  const double speed = std::sqrt(double(m.longitudinal_velocity) * m.longitudinal_velocity + double(m.lateral_velocity) * m.lateral_velocity);
  const double threshold = s.pick({0.0, 0.5, 5.0, speed * 0.99, speed * 1.01, 100.0});
  set(t + ".autoware_vehicle_msgs::msg::VelocityReport.speed_threshold", threshold);
  c.log << "seed " << number << ", threshold " << threshold << ", " << m.longitudinal_velocity << " " << m.lateral_velocity << " " << m.heading_rate << "\n";
  if (threshold > 0 && std::abs(threshold - speed) < 1e-5) return;
  Channel<VelocityReport> channel(t);
  const bool quiet = kind == NONE || speed < threshold;
  if (!quiet) c.nontrivial(), repeat(c, t, m, [](auto a, auto b) { return a == b; });
  if (speed < threshold) c.label("slow");
  std::array<Samples, 3> samples;
  for (int i = kind != SPREADS || quiet ? 3 : SAMPLES; i; --i) {
    const auto n = channel(m);
    c.require(n.header == m.header, "the noise changes the frame");
    samples[0].add(n.longitudinal_velocity), samples[1].add(n.lateral_velocity), samples[2].add(n.heading_rate);
  }
  const double before[3] = {m.longitudinal_velocity, m.lateral_velocity, m.heading_rate};
  for (int k = 0; k < 3; ++k) samples[k].judge(c, v[k], quiet ? before[k] : e[v[k]].of(before[k]), quiet ? 0 : e[v[k]].spread(before[k]), 3e-6);
}

VF_PROP("pose", 3000, 200000)
{
  shim::parameter_overrides().clear();
  const auto t = topic();
  const auto kind = shape(s, c);
  const std::vector<std::string> p{"pose.pose.position.local_x", "pose.pose.position.local_y", "pose.pose.position.local_z"}, o{"pose.pose.orientation.r", "pose.pose.orientation.p", "pose.pose.orientation.y"},
    v{"pose.covariance.x_x", "pose.covariance.y_y", "pose.covariance.z_z", "pose.covariance.roll_roll", "pose.covariance.pitch_pitch", "pose.covariance.yaw_yaw"};
  std::vector<std::string> names = p;
  names.insert(names.end(), v.begin(), v.end());
  auto e = errors(s, c, t, "geometry_msgs::msg::PoseWithCovarianceStamped", names, kind);
  auto turn = errors(s, c, t, "geometry_msgs::msg::PoseWithCovarianceStamped", o, kind == NONE ? NONE : MEANS);
  const int number = someSeed(s);
  seed(t, number);
  PoseWithCovarianceStamped m;
  m.header.frame_id = "map";
  m.pose.pose.position = genPoint(s);
  m.pose.pose.orientation = rpyQuat(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-3.1, 3.1));
  for (auto & x : m.pose.covariance) x = s.uniform(-1, 1);
  c.log << "seed " << number << "\n";
  if (kind != NONE) c.nontrivial(), repeat(c, t, m, [](auto a, auto b) { return a == b; });
  Channel<PoseWithCovarianceStamped> channel(t);
  const auto q0 = eigen(m.pose.pose.orientation);
  std::array<Samples, 9> samples;
  for (int i = kind == SPREADS ? SAMPLES : 3; i; --i) {
    const auto n = channel(m);
    c.require(n.header == m.header, "the noise changes the frame");
    for (int k = 0; k < 36; ++k)
      if (k % 7 == 0) samples[k / 7].add(n.pose.covariance[k]);
      else c.require(n.pose.covariance[k] == m.pose.covariance[k], "covariance ", k, " becomes ", n.pose.covariance[k]);
    const Eigen::Vector3d local = q0.conjugate() * Eigen::Vector3d(n.pose.pose.position.x - m.pose.pose.position.x, n.pose.pose.position.y - m.pose.pose.position.y, n.pose.pose.position.z - m.pose.pose.position.z);
    for (int k = 0; k < 3; ++k) samples[6 + k].add(local[k]);
    const auto d = rpyQuat(turn[o[0]].mean, turn[o[1]].mean, turn[o[2]].mean);
    const Eigen::Quaterniond q = q0 * eigen(d);
    c.require(between(quat(q.x(), q.y(), q.z(), q.w()), n.pose.pose.orientation) < 1e-6, "the orientation is not turned by the errors: off by ", between(m.pose.pose.orientation, n.pose.pose.orientation));
  }
  for (int k = 0; k < 6; ++k) samples[k].judge(c, v[k], e[v[k]].of(0), e[v[k]].spread(0));
  for (int k = 0; k < 3; ++k) samples[6 + k].judge(c, p[k], e[p[k]].of(0), e[p[k]].spread(0), 1e-7);
}

VF_PROP("inertial sensor", 4000, 300000)
{
  shim::parameter_overrides().clear();
  const auto t = topic();
  const auto kind = shape(s, c);
  const bool own = s.chance(50);  // the noise of the topic's parameters replaces that of the configuration
  const std::vector<std::string> o{"orientation.r", "orientation.p", "orientation.y"},
    v{"angular_velocity.x", "angular_velocity.y", "angular_velocity.z", "linear_acceleration.x", "linear_acceleration.y", "linear_acceleration.z", "orientation_covariance.roll_roll", "orientation_covariance.pitch_pitch", "orientation_covariance.yaw_yaw",
      "angular_velocity_covariance.x_x", "angular_velocity_covariance.y_y", "angular_velocity_covariance.z_z", "linear_acceleration_covariance.x_x", "linear_acceleration_covariance.y_y", "linear_acceleration_covariance.z_z"};
  auto e = errors(s, c, t, "sensor_msgs::msg::Imu", v, own ? kind : s.chance(50) ? MEANS : NONE);
  auto turn = errors(s, c, t, "sensor_msgs::msg::Imu", o, own && kind != NONE ? MEANS : NONE);
  const int number = someSeed(s);
  seed(t, number);
  if (own || s.chance(50)) shim::parameter_overrides()[t + ".override_legacy_configuration"] = rclcpp::ParameterValue(own);
  simulation_api_schema::ImuSensorConfiguration config;
  const std::string ego = s.pick({"ego", "car", ""});
  config.set_entity(ego), config.set_frame_id(s.pick({"imu", "base_link"})), config.set_add_gravity(s.boolean());
  config.set_use_seed(true), config.set_seed(number);
  std::array<double, 3> sd{};
  for (auto & x : sd)
    if (kind == SPREADS ? s.chance(70) : own && s.chance(50)) x = s.uniform(0.05, 0.5);
  config.set_noise_standard_deviation_orientation(sd[0]), config.set_noise_standard_deviation_twist(sd[1]), config.set_noise_standard_deviation_acceleration(sd[2]);
  traffic_simulator_msgs::msg::EntityStatus status;
  const double roll = s.uniform(-1, 1), pitch = s.uniform(-1, 1), yaw = s.uniform(-3, 3);
  status.pose.orientation = rpyQuat(roll, pitch, yaw), status.pose.position = genPoint(s);
  status.action_status.twist.linear = genVec(s, 10), status.action_status.twist.angular = genVec(s, 2), status.action_status.accel.linear = genVec(s, 5), status.action_status.accel.angular = genVec(s, 5);
  c.log << (own ? "own noise" : "legacy noise") << " of seed " << number << ", deviations " << sd[0] << " " << sd[1] << " " << sd[2] << (config.add_gravity() ? ", gravity" : "") << ", rpy " << roll << " " << pitch << " " << yaw << "\n";
  std::vector<traffic_simulator_msgs::EntityStatus> statuses;
  const bool there = !s.chance(10);
  for (auto & name : {std::string("other"), ego, std::string("last")}) {
    if (name == ego && !there) continue;
    auto other = status;
    if (name != ego) other.action_status.twist.angular.z += 1, other.action_status.accel.linear.x += 1;
    other.name = name;
    statuses.emplace_back();
    simulation_interface::toProto(other, statuses.back());
  }
  rclcpp::Node node("node");
  simple_sensor_simulator::ImuSensor<Imu> sensor(config, t, node);
  auto & sent = shim::topics<Imu>()[t];
  if (there && kind != NONE) c.nontrivial();
  const auto before = sent.published;
  std::array<Samples, 6> samples;
  std::array<Samples, 9> covariance;
  std::array<Samples, 3> angle;
  int sequence = 0;
  for (int i = kind == SPREADS ? SAMPLES : 3; i; --i) {
    const rclcpp::Time now(1000000000LL * (++sequence) + 5);
    const bool is = sensor.update(now, statuses);
    c.require(is == there && sent.published == before + (there ? sequence : 0), "the sensor ", is ? "publishes" : "does not publish", " although its entity is ", there ? "there" : "missing");
    if (!there) return;
    const auto n = *sent.history.back();
    c.require(n.header.frame_id == config.frame_id() && n.header.stamp.sec == sequence && n.header.stamp.nanosec == 5, "the message has another frame or time");
    // gravity is that of the measured orientation, in which the topic's own noise has no part
    const auto reference = own ? rpyQuat(roll, pitch, yaw) : n.orientation;
    const Eigen::Vector3d g = config.add_gravity() ? Eigen::Vector3d(eigen(reference) * Eigen::Vector3d(0, 0, -9.81)) : Eigen::Vector3d(0, 0, 0);
    const double is_now[6] = {n.angular_velocity.x, n.angular_velocity.y, n.angular_velocity.z, n.linear_acceleration.x, n.linear_acceleration.y, n.linear_acceleration.z};
    for (int k = 0; k < 6; ++k) samples[k].add(is_now[k] - (k >= 3 && !own ? g[k - 3] : 0));
    for (int k = 0; k < 9; ++k) {
      const int row = k % 3;
      covariance[k].add((k < 3 ? n.orientation_covariance : k < 6 ? n.angular_velocity_covariance : n.linear_acceleration_covariance)[4 * row]);
    }
    for (int k = 0; k < 9; ++k)
      if (k % 4) c.require(n.orientation_covariance[k] == 0 && n.angular_velocity_covariance[k] == 0 && n.linear_acceleration_covariance[k] == 0, "covariance ", k, " is not zero");
    if (own || sd[0] == 0) {
      const auto want = own ? rpyQuat(turn[o[0]].of(roll), turn[o[1]].of(pitch), turn[o[2]].of(yaw)) : rpyQuat(roll, pitch, yaw);
      c.require(between(want, n.orientation) < 1e-6, "the orientation is off by ", between(want, n.orientation));
    } else {
      // small angles come back as they were added
      const auto q = n.orientation;
      const double r = std::atan2(2 * (q.w * q.x + q.y * q.z), 1 - 2 * (q.x * q.x + q.y * q.y)), y = std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
      if (std::abs(pitch) + 6 * sd[0] < 1.5) angle[0].add(std::remainder(r - roll, 2 * M_PI)), angle[1].add(std::asin(std::min(1.0, std::max(-1.0, 2 * (q.w * q.y - q.z * q.x)))) - pitch), angle[2].add(std::remainder(y - yaw, 2 * M_PI));
    }
  }
  const double start[6] = {status.action_status.twist.angular.x, status.action_status.twist.angular.y, status.action_status.twist.angular.z, status.action_status.accel.linear.x, status.action_status.accel.linear.y, status.action_status.accel.linear.z};
  const Eigen::Vector3d g = own && config.add_gravity() ? Eigen::Vector3d(eigen(rpyQuat(roll, pitch, yaw)) * Eigen::Vector3d(0, 0, -9.81)) : Eigen::Vector3d(0, 0, 0);
  for (int k = 0; k < 6; ++k) {
    const double value = start[k] + (k >= 3 ? g[k - 3] : 0);
    if (own) samples[k].judge(c, v[k], e[v[k]].of(value), e[v[k]].spread(value), 1e-7);
    else samples[k].judge(c, v[k], value, sd[1 + k / 3], 1e-7);
  }
  for (int k = 0; k < 9; ++k) {
    if (own) covariance[k].judge(c, v[6 + k], e[v[6 + k]].of(0), e[v[6 + k]].spread(0));
    else covariance[k].judge(c, v[6 + k], sd[k / 3] * sd[k / 3], 0);
  }
  for (int k = 0; k < 3; ++k)
    if (angle[k].n) angle[k].judge(c, o[k], 0, sd[0], 1e-6);
}
