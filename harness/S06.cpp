// Detection sensor: which entities are published, when, and how, with every noise model at deterministic parameters.
#include <get_parameter/get_parameter.hpp>
#include <simple_sensor_simulator/exception.hpp>
#include <boost/uuid/uuid.hpp>
#include <boost/uuid/uuid_generators.hpp>
#include <boost/lexical_cast.hpp>
#include <autoware_perception_msgs/msg/detected_objects.hpp>
#include <geometry/bounding_box.hpp>
#include <geometry/transform.hpp>
#include <simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp>

#include <sys/wait.h>
#include <unistd.h>

#include "sensors.hpp"
using namespace simple_sensor_simulator;
using sensors::Obj;
using autoware_perception_msgs::msg::DetectedObjects;
using autoware_perception_msgs::msg::TrackedObjects;
using Eigen::Quaterniond;
using Eigen::Vector3d;

namespace
{
const std::string topic_name = "/objects";
void set(const std::string & name, const rclcpp::ParameterValue & v) { shim::parameter_overrides()[topic_name + name] = v; }
bool wild(const char * p, const char * t)
{
  if (!*p) return !*t;
  if (*p == '*') return wild(p + 1, t) || (*t && wild(p, t + 1));
  return *t && (*p == '?' || *p == *t) && wild(p + 1, t + 1);
}
bool any(const std::vector<std::string> & ps, const std::string & t)
{
  for (const auto & p : ps)
    if (wild(p.c_str(), t.c_str())) return true;
  return false;
}
const std::vector<std::string> type_names{"EGO", "VEHICLE", "PEDESTRIAN", "MISC_OBJECT"};
const std::vector<std::string> subtype_names{"UNKNOWN", "CAR", "TRUCK", "BUS", "TRAILER", "MOTORCYCLE", "BICYCLE", "PEDESTRIAN"};

struct Tie
{
};
// one parameter selected by distance
struct Table
{
  double x_radius = 1;
  std::vector<double> values;
  double at(const std::vector<double> & radii, double x, double y) const
  {
    const double d = std::hypot(x / x_radius, y);
    for (const double r : radii)
      if (std::abs(r - d) < 1e-6) throw Tie{};
    for (std::size_t i = 0; i < radii.size(); ++i)
      if (d < radii[i]) return values[i];
    return 0;
  }
};
struct Phi
{
  double amplitude = 0, decay = 0, offset = 0;
  double at(double dt) const { return std::min(1.0, std::max(0.0, amplitude * std::exp(-decay * dt) + offset)); }
};
struct Noise
{
  std::string base, name;
  std::vector<std::string> types, subtypes, names;
  std::vector<double> radii;
  std::map<std::string, Table> mean;
  std::map<std::string, Phi> phi;
  Table rate;
  double flip_speed = 0, flip_rate = 0;
  bool accepts(const Obj & o) const { return any(types, type_names[o.type]) && any(subtypes, subtype_names[o.subtype]) && any(names, o.name); }
};
void write(const std::string & base, const Phi & p)
{
  set(base + ".autocorrelation_coefficient.amplitude", rclcpp::ParameterValue(p.amplitude));
  set(base + ".autocorrelation_coefficient.decay", rclcpp::ParameterValue(p.decay));
  set(base + ".autocorrelation_coefficient.offset", rclcpp::ParameterValue(p.offset));
}
Noise noise(vf::Src & s, vf::Case & c, int version, const std::string & name)
{
  Noise n;
  n.name = name;
  n.base = ".noise.v" + std::to_string(version) + "." + (version > 2 ? name + "." : "");
  double r = 0;
  for (std::size_t k = 1 + s.length(3); k; --k) n.radii.push_back(r += s.real(1, 30));
  set(n.base + "ellipse_y_radii", rclcpp::ParameterValue(n.radii));
  c.log << "noise " << n.base << " radii";
  for (const double x : n.radii) c.log << " " << x;
  const auto table = [&](const std::string & key, bool binary) {
    Table t;
    t.x_radius = s.pick({1.0, 0.5, 3.0});
    for (std::size_t k = 0; k < n.radii.size(); ++k) t.values.push_back(binary ? !s.chance(20) : s.boolean() ? s.real(-1, 1) : 0);
    set(n.base + key + ".ellipse_normalized_x_radius", rclcpp::ParameterValue(t.x_radius));
    set(n.base + key + ".values", rclcpp::ParameterValue(t.values));
    c.log << "; " << key << " (" << t.x_radius << ")";
    for (const double x : t.values) c.log << " " << x;
    return t;
  };
  for (const auto & k : version < 4 ? std::vector<std::string>{"distance", "yaw"} : std::vector<std::string>{"position.x", "position.y", "yaw"}) {
    n.mean[k] = table(k + ".mean", false);
    set(n.base + k + ".standard_deviation.ellipse_normalized_x_radius", rclcpp::ParameterValue(1.0));
    set(n.base + k + ".standard_deviation.values", rclcpp::ParameterValue(std::vector<double>(n.radii.size(), 0.0)));
    Phi p{s.pick({0.0, 0.5, 1.0, 1.5}), s.pick({0.0, 1.0, 5.0}), s.pick({0.0, 0.0, 0.25, -0.25})};
    write(n.base + k, p);
    n.phi[k] = p;
    c.log << "; " << k << " coefficient " << p.amplitude << " " << p.decay << " " << p.offset;
  }
  n.rate = table("true_positive.rate", true);
  for (const auto * k : {"true_positive", "yaw_flip"}) {
    Phi p = s.pick(std::vector<Phi>{{0, 0, 0}, {1, 0, 0}, {0, 1, 1}, {-3, 0, 2}, {5, 0, 0}});
    write(n.base + k, p);
    n.phi[k] = p;
    c.log << "; " << k << " coefficient " << p.at(0);
  }
  n.flip_speed = s.real(0, 20), n.flip_rate = s.index(2);
  set(n.base + "yaw_flip.speed_threshold", rclcpp::ParameterValue(n.flip_speed));
  set(n.base + "yaw_flip.rate", rclcpp::ParameterValue(n.flip_rate));
  c.log << "; flips below " << n.flip_speed << " at rate " << n.flip_rate << "\n";
  return n;
}
struct State
{
  double time;
  std::map<std::string, double> value;
  bool tp = true, flip = false;
  const Noise * noise = nullptr;
};
Quaterniond turn(double yaw) { return Quaterniond(Eigen::AngleAxisd(yaw, Vector3d::UnitZ())); }

// the point of the footprint nearest to the ego
Vector3d nearest(const Obj & o, const Obj & ego)
{
  Vector3d base = o.p;
  double best = 1e300;
  bool inside = true;
  Vector3d corner[4];
  for (int i = 0; i < 4; ++i) corner[i] = o.p + o.q * (o.centre + Vector3d((i == 0 || i == 3 ? 0.5 : -0.5) * o.d, (i < 2 ? 0.5 : -0.5) * o.w, 0));
  for (int i = 0; i < 4; ++i) {
    const Vector3d a = corner[i], b = corner[(i + 1) % 4], e = b - a, u = ego.p - a;
    const double t = std::min(1.0, std::max(0.0, (u.x() * e.x() + u.y() * e.y()) / (e.x() * e.x() + e.y() * e.y())));
    const Vector3d p = a + t * e;
    const double d = std::hypot(p.x() - ego.p.x(), p.y() - ego.p.y());
    if (e.x() * u.y() - e.y() * u.x() < 0) inside = false;
    if (std::abs(d - best) < 1e-6 && (p - base).norm() > 1e-4) throw Tie{};
    if (d < best) best = d, base = p;
  }
  if (inside || best < 1e-3) throw Tie{};
  return base;
}
// the entity as published, if at all
std::optional<Obj> apply(const Noise & n, int version, State & st, const Obj & o, const Obj & ego, double time)
{
  Obj r = o;
  const double dt = time - st.time;
  st.time = time;
  Vector3d base = o.p;
  if (version == 4) {
    base = nearest(o, ego);
  }
  const double x = base.x() - ego.p.x(), y = base.y() - ego.p.y();
  // the ellipses lie along the ego
  const Vector3d ahead = ego.q * Vector3d::UnitX();
  const double level = std::hypot(ahead.x(), ahead.y());
  if (level < 1e-3) throw Tie{};
  const double along = (ahead.x() * x + ahead.y() * y) / level, across = (ahead.x() * y - ahead.y() * x) / level;
  for (const auto & [k, t] : n.mean) {
    const double mean = t.at(n.radii, along, across);
    st.value[k] = mean + n.phi.at(k).at(dt) * (st.value[k] - mean);
  }
  const auto markov = [&](bool previous, double rate, double phi) { return previous * phi + (1 - phi) * rate > 0.5; };
  const double speed = std::hypot(o.linear.x(), o.linear.y());
  if (std::abs(speed - n.flip_speed) < 1e-9) throw Tie{};
  st.flip = speed < n.flip_speed && markov(st.flip, n.flip_rate, n.phi.at("yaw_flip").at(dt));
  st.tp = markov(st.tp, n.rate.at(n.radii, along, across), n.phi.at("true_positive").at(dt));
  if (!st.tp) return std::nullopt;
  const double yaw = st.value["yaw"];
  const double l = std::hypot(x, y);
  if (version < 4) {
    if (l > 0) r.p += Vector3d(x / l, y / l, 0) * st.value["distance"];
    else r.p.x() += st.value["distance"];
    r.q = o.q * turn(yaw + (st.flip ? M_PI : 0));
  } else {
    const Vector3d origin(base.x(), base.y(), 0);
    Vector3d p = origin + turn(yaw) * (o.p - origin);
    p += Vector3d(y / l, -x / l, 0) * st.value["position.x"] + Vector3d(x / l, y / l, 0) * st.value["position.y"];
    r.p.x() = p.x(), r.p.y() = p.y();
    r.q = o.q * turn(yaw);
    if (st.flip) {
      const Vector3d middle = r.middle();
      r.q = r.q * turn(M_PI);
      r.p = middle - r.q * r.centre;
    }
  }
  return r;
}

int label_of(int subtype)
{
  using C = autoware_perception_msgs::msg::ObjectClassification;
  switch (subtype) {
    case 1: return C::CAR;
    case 2: return C::TRUCK;
    case 3: return C::BUS;
    case 4: return C::TRAILER;
    case 5: return C::MOTORCYCLE;
    case 6: return C::BICYCLE;
    case 7: return C::PEDESTRIAN;
    default: return C::UNKNOWN;
  }
}
template <class O>
void same(vf::Case & c, const O & m, const Obj & e, const std::string & what)
{
  c.require(m.classification.size() == 1 && m.classification[0].label == label_of(e.subtype) && m.classification[0].probability == 1, what, " is classified as another kind than ", subtype_names[e.subtype]);
  const auto & k = m.kinematics;
  const auto & p = k.pose_with_covariance.pose;
  const Vector3d at(p.position.x, p.position.y, p.position.z), middle = e.middle();
  c.require((at - middle).norm() < 1e-6, what, " is published at (", at.transpose(), ") instead of (", middle.transpose(), ")");
  const Quaterniond q(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z);
  c.require(std::abs(q.norm() - 1) < 1e-6 && std::abs(std::abs(q.dot(e.q)) - 1) < 1e-9, what, " is turned by (", q.coeffs().transpose(), ") instead of (", e.q.coeffs().transpose(), ")");
  for (int i = 0; i < 36; ++i) c.require(k.pose_with_covariance.covariance[i] == (i % 7 == 0), what, " has another covariance");
  const auto & t = k.twist_with_covariance.twist;
  c.require(t.linear.x == e.linear.x() && t.linear.y == e.linear.y() && t.linear.z == e.linear.z() && t.angular.x == e.angular.x() && t.angular.y == e.angular.y() && t.angular.z == e.angular.z(), what, " has another twist");
  using K = autoware_perception_msgs::msg::DetectedObjectKinematics;
  c.require(k.orientation_availability == (e.subtype == 0 ? K::UNAVAILABLE : K::SIGN_UNKNOWN), what, " has another orientation availability");
  c.require(m.shape.type == autoware_perception_msgs::msg::Shape::BOUNDING_BOX && m.shape.dimensions.x == e.d && m.shape.dimensions.y == e.w && m.shape.dimensions.z == e.h, what, " has another shape");
}
struct Plane
{
  std::optional<std::pair<Vector3d, Quaterniond>> at;
};
// the rule of the ego plane
bool visible(Plane & plane, const Obj & o, const Obj & ego)
{
  if (std::abs(o.p.z() - (ego.p.z() - 1)) < 1e-9) throw Tie{};
  if (o.p.z() >= ego.p.z() - 1) return true;
  if (plane.at) {
    const double turned = plane.at->second.angularDistance(ego.q);
    if (std::abs(turned - 0.04) < 1e-3) throw Tie{};
    if (turned > 0.04) plane.at.reset();
  }
  if (!plane.at) plane.at = {ego.p, ego.q};
  const double offset = (plane.at->second * Vector3d::UnitZ()).dot(o.p - plane.at->first);
  if (std::abs(offset) < 1e-6) throw Tie{};
  return offset >= 0;
}
struct World
{
  Obj ego;
  std::map<std::string, Obj> npcs;
};
// the world moves on
void step(vf::Src & s, World & w, bool flat, bool level, std::size_t count)
{
  w.ego.name = "ego", w.ego.type = 0;
  if (w.npcs.empty() || s.boolean()) w.ego.p = Vector3d(s.real(-30, 30), s.real(-30, 30), s.real(-3, 3));
  if (level) w.ego.q = Quaterniond(1, 0, 0, 0);
  else if (w.npcs.empty() || s.chance(30)) w.ego.q = sensors::orientation(s, flat && s.boolean());
  else if (s.boolean()) w.ego.q = w.ego.q * Quaterniond(Eigen::AngleAxisd(s.pick({0.01, 0.02, 0.03, 0.06, 0.1, -0.03, -0.06}), Vector3d(s.real(-1, 1), s.real(-1, 1), 0.1).normalized()));
  for (std::size_t i = 1; i <= count; ++i) {
    const std::string name = "npc" + std::to_string(i);
    auto o = sensors::object(s, name, s.pick({5.0, 15.0, 40.0}));
    o.p += w.ego.p;
    if (s.chance(40)) o.p.z() = w.ego.p.z() - s.real(0.5, 6);
    if (flat) o.q = sensors::orientation(s, true);
    if (const auto i = w.npcs.find(name); i != w.npcs.end()) o.type = i->second.type, o.subtype = i->second.subtype, o.d = i->second.d, o.w = i->second.w, o.h = i->second.h, o.centre = i->second.centre;
    w.npcs[name] = o;
  }
}
struct Sensor
{
  simulation_api_schema::DetectionSensorConfiguration conf;
  std::unique_ptr<DetectionSensor<DetectedObjects>> sensor;
  shim::Topic<DetectedObjects> & detected = shim::topics<DetectedObjects>()[topic_name];
  shim::Topic<TrackedObjects> & truth = shim::topics<TrackedObjects>()["/truth"];
  Sensor()
  {
    shim::topics<DetectedObjects>()[topic_name] = {};
    shim::topics<TrackedObjects>()["/truth"] = {};
  }
  void start(double now)
  {
    sensor = std::make_unique<DetectionSensor<DetectedObjects>>(now, conf, std::make_shared<rclcpp::Publisher<DetectedObjects>>(topic_name), std::make_shared<rclcpp::Publisher<TrackedObjects>>("/truth"));
  }
};
void fresh()
{
  shim::parameter_overrides().clear();
  common::getParameterNode().get_node_parameters_interface()->clear();
}
// runs the body in a child process, for the parameters that are read once per process
void isolated(vf::Case & c, const std::function<void()> & body)
{
  int fd[2];
  if (::pipe(fd)) c.fail("no pipe");
  const pid_t child = ::fork();
  if (child == 0) {
    ::close(fd[0]);
    std::string m;
    try {
      body();
    } catch (const vf::Failure & f) {
      m = f.message;
    } catch (const std::exception & e) {
      m = std::string("unexpected exception: ") + e.what();
    } catch (...) {
      m = "";
    }
    if (!m.empty() && ::write(fd[1], m.data(), m.size()) < 0) ::_exit(9);
    ::_exit(0);
  }
  ::close(fd[1]);
  std::string m;
  char buffer[512];
  for (ssize_t n; (n = ::read(fd[0], buffer, sizeof(buffer))) > 0;) m.append(buffer, n);
  ::close(fd[0]);
  int status = 0;
  ::waitpid(child, &status, 0);
  c.require(m.empty(), m);
  c.require(status == 0, "the sensor crashed, status ", status);
}
struct Expected
{
  double time;
  std::vector<Obj> objects;
  Obj ego;
};
}  // namespace

// first, because a process reads these parameters once
VF_PROP("random", 60, 1200)
{
  // the first model with randomness, and the parameters that override the configuration
  const bool override_conf = s.boolean();
  const double sd = s.pick({0.0, 0.5, 2.0}), missing = s.pick({0.0, 1.0, 0.3});
  const int seed = 1 + static_cast<int>(s.index(50));
  const double range = s.real(5, 40), period = 0.1, delay = s.pick({0.0, 0.15});
  const bool all = s.boolean();
  World w;
  step(s, w, true, true, 4);
  double mark = 0;
  for (auto & o : w.npcs) o.second.p.z() = w.ego.p.z(), o.second.linear.x() = ++mark;
  c.log << (override_conf ? "overridden by parameters" : "as configured") << ": deviation " << sd << " missing " << missing << " seed " << seed << " range " << range << " delay " << delay << (all ? " all" : "") << "\n";
  for (const auto & o : w.npcs) c.log << o.second.text() << "\n";
  isolated(c, [&] {
    fresh();
    set(".noise.model.version", rclcpp::ParameterValue(1)), set(".override_legacy_configuration", rclcpp::ParameterValue(override_conf));
    Sensor d;
    d.conf.set_entity("ego"), d.conf.set_update_duration(period), d.conf.set_random_seed(seed);
    // the other source holds other values
    const auto fill = [&](bool parameters, double sd, double missing, double range, double delay, bool all) {
      if (parameters) {
        set(".noise.v1.position.standard_deviation", rclcpp::ParameterValue(sd)), set(".noise.v1.missing_probability", rclcpp::ParameterValue(missing)), set(".range", rclcpp::ParameterValue(range)), set(".delay", rclcpp::ParameterValue(delay)),
          set(".occlusionless", rclcpp::ParameterValue(all));
      } else {
        d.conf.set_pos_noise_stddev(sd), d.conf.set_probability_of_lost(missing), d.conf.set_range(range), d.conf.set_object_recognition_delay(delay), d.conf.set_detect_all_objects_in_range(all);
      }
    };
    fill(override_conf, sd, missing, range, delay, all), fill(!override_conf, 7, 0.6, range + 100, delay + 3, !all);
    d.conf.set_object_recognition_ground_truth_delay(0);
    Sensor d2;
    d2.conf = d.conf;
    d.start(0), d2.start(0);
    std::vector<sensors::EntityStatus> statuses;
    std::vector<Obj> expected;
    const std::vector<std::string> seen{"npc1", "npc3"};
    for (const auto & o : w.npcs) {
      statuses.push_back(o.second.proto());
      const double distance = (o.second.p - w.ego.p).norm();
      if (std::abs(distance - range) < 1e-6) return;
      if (distance <= range && (all || o.first == "npc1" || o.first == "npc3")) expected.push_back(o.second);
    }
    statuses.push_back(w.ego.proto());
    std::size_t kept = 0, total = 0;
    std::vector<double> errors;
    for (int i = 1; i <= 60; ++i) {
      const double now = i * period;
      const auto before = d.detected.published;
      d.sensor->update(now, statuses, rclcpp::Time(std::int64_t(now * 1e9)), seen);
      const auto m = d.detected.published > before ? *d.detected.history.back() : DetectedObjects();
      d2.sensor->update(now, statuses, rclcpp::Time(std::int64_t(now * 1e9)), seen);
      const bool out = delay == 0 || i >= 3;
      c.require(d.detected.published == before + 2 * out, "published ", d.detected.published - before, " messages where ", 2 * out, " are due");
      if (!out) continue;
      const auto & m2 = *d2.detected.history.back();
      c.require(m.objects.size() == m2.objects.size(), "the same seed loses other objects");
      total += expected.size(), kept += m.objects.size();
      c.require(m.objects.size() <= expected.size(), "there are ", m.objects.size(), " objects of ", expected.size());
      std::size_t k = 0;
      for (std::size_t j = 0; j < m.objects.size(); ++j) {
        const auto & p = m.objects[j].kinematics.pose_with_covariance.pose.position;
        const auto & p2 = m2.objects[j].kinematics.pose_with_covariance.pose.position;
        c.require(p.x == p2.x && p.y == p2.y, "the same seed moves objects to other places");
        // objects keep their order; the twist tells them apart
        while (k < expected.size() && expected[k].linear.x() != m.objects[j].kinematics.twist_with_covariance.twist.linear.x) ++k;
        c.require(k < expected.size(), "an object is none of the expected ones");
        Obj e = expected[k];
        const Vector3d middle = e.middle();
        c.require(std::abs(p.z - middle.z()) < 1e-9, "the noise moves an object up or down");
        errors.push_back(p.x - middle.x()), errors.push_back(p.y - middle.y());
        c.require(std::abs(p.x - middle.x()) <= 8 * sd + 1e-6 && std::abs(p.y - middle.y()) <= 8 * sd + 1e-6, "the noise moves an object by (", p.x - middle.x(), ", ", p.y - middle.y(), ")");
        e.p.x() += p.x - middle.x(), e.p.y() += p.y - middle.y();
        same(c, m.objects[j], e, "the detected object of " + e.name);
      }
      const auto & t = *d.truth.history.back();
      c.require(t.objects.size() == expected.size(), "there are ", t.objects.size(), " true objects instead of ", expected.size());
      for (std::size_t j = 0; j < expected.size(); ++j) same(c, t.objects[j], expected[j], "the true object of " + expected[j].name);
    }
    c.require(std::abs(double(kept) - total * (1 - missing)) <= 6 * std::sqrt(total * missing * (1 - missing)) + 1e-9, kept, " of ", total, " objects are kept at a missing probability of ", missing);
    if (errors.size() >= 40) {
      double mean = 0, var = 0;
      for (const double e : errors) mean += e / errors.size();
      for (const double e : errors) var += (e - mean) * (e - mean) / (errors.size() - 1);
      c.require(std::abs(mean) <= 6 * sd / std::sqrt(errors.size()) + 1e-9, "the mean of the position noise is ", mean);
      c.require(std::abs(std::sqrt(var) - sd) <= 6 * sd / std::sqrt(2.0 * errors.size()) + 1e-9, "the deviation of the position noise is ", std::sqrt(var), " instead of ", sd);
    }
  });
  if (sd > 0 || missing > 0) c.nontrivial();
}

VF_PROP("objects", 2500, 40000)
{
  fresh();
  Sensor d;
  const int version = static_cast<int>(1 + s.index(4));
  const double period = s.pick({0.1, 0.2, 0.05}), range = s.real(1, 60), delay = s.pick({0.0, 0.0, 0.5, 1.3, 2.5}) * period, truth_delay = s.pick({0.0, 0.0, 0.5, 1.3, 2.5}) * period;
  const bool all = s.boolean(), level = s.boolean(), flat = version == 4 || s.boolean();
  d.conf.set_entity("ego"), d.conf.set_update_duration(period), d.conf.set_range(range), d.conf.set_detect_all_objects_in_range(all), d.conf.set_object_recognition_delay(delay),
    d.conf.set_object_recognition_ground_truth_delay(truth_delay), d.conf.set_random_seed(static_cast<int>(s.index(3)));
  set(".noise.model.version", rclcpp::ParameterValue(version)), set(".seed", rclcpp::ParameterValue(int(s.index(3))));
  c.log << "noise model " << version << ", every " << period << " s, range " << range << ", delays " << delay << " and " << truth_delay << (all ? ", all in range" : "") << "\n";
  std::vector<Noise> noises;
  bool mismatch = false;
  if (version == 2) noises.push_back(noise(s, c, 2, ""));
  if (version > 2)
    for (std::size_t i = 0, n = s.index(3); i < n; ++i) {
      auto k = noise(s, c, version, "config" + std::to_string(i));
      if (n == 2) k.names = i == 0 ? std::vector<std::string>{s.pick({std::string("?pc1"), std::string("n*1")}), s.pick({std::string("npc3"), std::string("*c3")})} : std::vector<std::string>{"npc2", s.pick({std::string("npc4"), std::string("*4")})};
      else k.names = {s.pick({std::string("*"), std::string("npc?"), std::string("*c2"), std::string("npc")})};
      k.types = s.chance(70) ? std::vector<std::string>{"*"} : s.pick(std::vector<std::vector<std::string>>{{"VEHICLE"}, {"PEDESTRIAN", "MISC*"}, {"V?HICLE", "EGO"}, {}});
      k.subtypes = s.chance(60) ? std::vector<std::string>{"*"} : s.pick(std::vector<std::vector<std::string>>{{"CAR", "BUS"}, {"*C*"}, {"T*", "?IC*", "UNKNOWN", "P*"}});
      set(k.base + "noise_application_entities.types", rclcpp::ParameterValue(k.types));
      set(k.base + "noise_application_entities.subtypes", rclcpp::ParameterValue(k.subtypes));
      set(k.base + "noise_application_entities.names", rclcpp::ParameterValue(k.names));
      c.log << "for";
      for (const auto & x : k.types) c.log << " " << x;
      c.log << ";";
      for (const auto & x : k.subtypes) c.log << " " << x;
      c.log << ";";
      for (const auto & x : k.names) c.log << " " << x;
      c.log << "\n";
      noises.push_back(k);
    }
  if (version == 2 && s.chance(3)) {
    mismatch = true;
    set(noises[0].base + s.pick({std::string("distance.mean"), std::string("yaw.standard_deviation"), std::string("true_positive.rate")}) + ".values", rclcpp::ParameterValue(std::vector<double>(noises[0].radii.size() + 1, 0.0)));
    c.log << "with an array of another size\n";
  }
  double now = s.real(0, 10), last = now;
  d.start(now);
  std::deque<Expected> waiting, truths;
  std::map<std::string, State> states;
  static std::map<std::string, std::array<std::uint8_t, 16>> ids;
  Plane plane;
  World w;
  const std::size_t count = s.index(5);
  std::size_t published = 0, moved = 0;
  try {
    for (std::size_t n = 2 + s.length(6); n; --n) {
      now += s.pick({period, period, period / 2, period * 1.5, period - 0.001, period - 0.004});
      step(s, w, flat, level, count);
      std::vector<std::string> seen;
      std::vector<Obj> order;
      for (const auto & o : w.npcs) {
        if (s.chance(60)) seen.push_back(o.first);
        if (!s.chance(10)) order.push_back(o.second);
      }
      s.shuffle(order);
      std::vector<sensors::EntityStatus> statuses;
      for (const auto & o : order) statuses.push_back(o.proto());
      const bool has_ego = !s.chance(2);
      if (has_ego) statuses.insert(statuses.begin() + s.index(statuses.size() + 1), w.ego.proto());
      const double late = now - last - period;
      if (std::abs(late + 0.002) < 1e-6) throw Tie{};
      const bool due = late > -0.002;
      const rclcpp::Time stamp(static_cast<std::int64_t>(now * 1e9));
      c.log << "at " << now << (due ? " due " : " not due ") << (has_ego ? "" : "no ego ") << w.ego.text() << "\n";
      for (const auto & o : order) c.log << "  " << o.text() << " speed " << o.linear.transpose() << "\n";
      c.log << "  seen";
      for (const auto & x : seen) c.log << " " << x;
      c.log << "\n";
      if (due && !has_ego) {
        VF_THROWS(SimulationRuntimeError, d.sensor->update(now, statuses, stamp, seen));
        return;
      }
      const auto before = d.detected.published, before_truth = d.truth.published;
      if (!due) {
        d.sensor->update(now, statuses, stamp, seen);
        c.require(d.detected.published == before && d.truth.published == before_truth, "objects are published between updates");
        continue;
      }
      last = now;
      Expected e{now, {}, w.ego};
      for (const auto & o : order) {
        const double distance = (o.p - w.ego.p).norm();
        if (std::abs(distance - range) < 1e-6) throw Tie{};
        if (distance > range || !visible(plane, o, w.ego)) continue;
        if (all || std::find(seen.begin(), seen.end(), o.name) != seen.end()) e.objects.push_back(o);
      }
      waiting.push_back(e), truths.push_back(e);
      for (const auto & [q, x] : {std::make_pair(waiting.front().time, delay), std::make_pair(truths.front().time, truth_delay)})
        if (x > 0 && std::abs(now - q - x) < 1e-9) throw Tie{};
      const bool out = now - waiting.front().time >= delay, out_truth = now - truths.front().time >= truth_delay;
      if (mismatch && out && !waiting.front().objects.empty()) {
        VF_THROWS(common::Error, d.sensor->update(now, statuses, stamp, seen));
        c.nontrivial();
        return;
      }
      d.sensor->update(now, statuses, stamp, seen);
      c.require(d.detected.published == before + out, "published ", d.detected.published - before, " messages of detected objects where ", int(out), " is due");
      c.require(d.truth.published == before_truth + out_truth, "published ", d.truth.published - before_truth, " messages of true objects where ", int(out_truth), " is due");
      if (out) {
        ++published;
        const auto f = waiting.front();
        waiting.pop_front();
        std::vector<Obj> expected;
        for (const auto & o : f.objects) {
          if (version == 1) {
            expected.push_back(o);
            continue;
          }
          auto [i, first] = states.emplace(o.name, State{f.time, {}, true, false, nullptr});
          if (first)
            for (const auto & k : noises)
              if (version == 2 || k.accepts(o)) i->second.noise = &k;
          if (!i->second.noise) expected.push_back(o);
          // the ego as it is now
          else if (const auto r = apply(*i->second.noise, version, i->second, o, w.ego, f.time)) {
            expected.push_back(*r);
            moved += (r->p - o.p).norm() > 1e-3 || r->q.angularDistance(o.q) > 1e-3;
          } else ++moved;
        }
        const auto & m = *d.detected.history.back();
        c.require(m.header.frame_id == "map" && rclcpp::Time(m.header.stamp) == stamp, "the header of the detected objects is another");
        c.require(m.objects.size() == expected.size(), "there are ", m.objects.size(), " detected objects instead of ", expected.size());
        for (std::size_t k = 0; k < expected.size(); ++k) same(c, m.objects[k], expected[k], "the detected object of " + expected[k].name);
        if (!expected.empty()) c.label("detected"), c.nontrivial();
      }
      if (out_truth) {
        const auto f = truths.front();
        truths.pop_front();
        const auto & m = *d.truth.history.back();
        c.require(m.header.frame_id == "map" && rclcpp::Time(m.header.stamp) == stamp, "the header of the true objects is another");
        c.require(m.objects.size() == f.objects.size(), "there are ", m.objects.size(), " true objects instead of ", f.objects.size());
        for (std::size_t k = 0; k < f.objects.size(); ++k) {
          same(c, m.objects[k], f.objects[k], "the true object of " + f.objects[k].name);
          std::array<std::uint8_t, 16> id;
          std::copy(m.objects[k].object_id.uuid.begin(), m.objects[k].object_id.uuid.end(), id.begin());
          const auto known = ids.emplace(f.objects[k].name, id).first;
          c.require(known->second == id, "the id of ", f.objects[k].name, " changed");
          for (const auto & x : ids) c.require(x.first == f.objects[k].name || x.second != id, x.first, " and ", f.objects[k].name, " have the same id");
        }
        if (!f.objects.empty()) c.label("truth");
      }
    }
  } catch (const Tie &) {
    c.label("tie");
    return;
  }
  if (plane.at) c.label("plane");
  if (moved) c.label("noise v" + std::to_string(version));
}

VF_PROP("spread", 40, 1500)
{
  // the models with randomness: the size of each step of the noise and the rates of the transitions
  fresh();
  Sensor d;
  const int version = static_cast<int>(2 + s.index(3));
  const double period = 0.1;
  d.conf.set_entity("ego"), d.conf.set_update_duration(period), d.conf.set_range(300), d.conf.set_detect_all_objects_in_range(true), d.conf.set_random_seed(static_cast<int>(s.index(1000)));
  set(".noise.model.version", rclcpp::ParameterValue(version)), set(".seed", rclcpp::ParameterValue(int(s.index(1000))));
  const std::string base = ".noise.v" + std::to_string(version) + (version > 2 ? ".all." : ".");
  set(base + "ellipse_y_radii", rclcpp::ParameterValue(std::vector<double>{1000.0}));
  const auto constant = [&](const std::string & key, double v) {
    set(base + key + ".ellipse_normalized_x_radius", rclcpp::ParameterValue(1.0));
    set(base + key + ".values", rclcpp::ParameterValue(std::vector<double>{v}));
  };
  const auto coefficient = [&](const std::string & key) {
    Phi p{s.real(0, 0.95), s.pick({0.0, 2.0}), s.pick({0.0, 0.05})};
    write(base + key, p);
    return p.at(period);
  };
  struct Walk
  {
    double mean, sd, phi;
    std::vector<double> steps;
  };
  std::map<std::string, Walk> walks;
  c.log << "noise " << base << " seeds " << d.conf.random_seed() << "\n";
  for (const auto & k : version < 4 ? std::vector<std::string>{"distance", "yaw"} : std::vector<std::string>{"position.x", "position.y", "yaw"}) {
    Walk w{s.real(-0.2, 0.2), s.pick({0.05, 0.2}), 0, {}};
    constant(k + ".mean", w.mean), constant(k + ".standard_deviation", w.sd);
    w.phi = coefficient(k);
    c.log << k << ": mean " << w.mean << " deviation " << w.sd << " coefficient " << w.phi << "\n";
    walks[k] = w;
  }
  const double rate = s.real(0.3, 0.9), flip_rate = s.real(0.1, 0.9);
  constant("true_positive.rate", rate);
  const double tp_phi = coefficient("true_positive"), flip_phi = coefficient("yaw_flip");
  set(base + "yaw_flip.speed_threshold", rclcpp::ParameterValue(50.0)), set(base + "yaw_flip.rate", rclcpp::ParameterValue(flip_rate));
  for (const auto * k : {"types", "subtypes", "names"}) set(base + "noise_application_entities." + k, rclcpp::ParameterValue(std::vector<std::string>{"*"}));
  c.log << "true positives " << rate << " " << tp_phi << "; flips " << flip_rate << " " << flip_phi << "\n";
  World w;
  step(s, w, true, true, 3);
  double mark = 0;
  std::vector<Vector3d> bases;
  std::vector<sensors::EntityStatus> statuses{w.ego.proto()};
  try {
    for (auto & [name, o] : w.npcs) {
      o.p = w.ego.p + turn(mark * 2 + s.real(0, 1)) * Vector3d(s.real(15, 50), 0, 0), o.linear = Vector3d(++mark, 0, 0), o.centre = Vector3d(0, 0, 0);
      statuses.push_back(o.proto());
      bases.push_back(version == 4 ? nearest(o, w.ego) : o.p);
      c.log << o.text() << "\n";
    }
  } catch (const Tie &) {
    return;
  }
  struct Last
  {
    bool tp = true, flip = false;
    std::map<std::string, double> value;
    bool known = true;
  };
  std::vector<Last> last(w.npcs.size());
  // transitions: [what][previous] -> hits, total
  std::map<std::string, std::array<std::array<double, 2>, 2>> moves;
  d.start(0);
  for (int i = 1; i <= 150; ++i) {
    d.sensor->update(i * period, statuses, rclcpp::Time(std::int64_t(i * 1e8)), {});
    const auto & m = *d.detected.history.back();
    std::vector<const autoware_perception_msgs::msg::DetectedObject *> found(w.npcs.size(), nullptr);
    for (const auto & o : m.objects) {
      const double x = o.kinematics.twist_with_covariance.twist.linear.x;
      c.require(x == 1 || x == 2 || x == 3, "an object has another twist");
      c.require(!found[std::size_t(x) - 1], "an object is there twice");
      found[std::size_t(x) - 1] = &o;
    }
    std::size_t k = 0;
    for (const auto & [name, o] : w.npcs) {
      auto & l = last[k];
      const bool tp = found[k];
      // what happens to an entity in its first frame is the start of the chain
      moves["true positives"][l.tp][0] += tp, moves["true positives"][l.tp][1] += 1;
      l.tp = tp;
      if (tp) {
        const auto & p = found[k]->kinematics.pose_with_covariance.pose;
        const Quaterniond turned = o.q.conjugate() * Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z);
        double yaw = 2 * std::atan2(turned.z(), turned.w());
        while (yaw > M_PI) yaw -= 2 * M_PI;
        while (yaw < -M_PI) yaw += 2 * M_PI;
        const bool flip = std::abs(yaw) > M_PI / 2;
        if (flip) yaw += yaw > 0 ? -M_PI : M_PI;
        if (i > 1 && l.known) moves["flips"][l.flip][0] += flip, moves["flips"][l.flip][1] += 1;
        l.flip = flip;
        std::map<std::string, double> value{{"yaw", yaw}};
        const Vector3d at(p.position.x, p.position.y, p.position.z), away = Vector3d(bases[k].x() - w.ego.p.x(), bases[k].y() - w.ego.p.y(), 0).normalized(), right(away.y(), -away.x(), 0);
        c.require(std::abs(at.z() - o.p.z()) < 1e-9, "the noise moves an object up or down");
        const Vector3d origin(bases[k].x(), bases[k].y(), 0);
        const Vector3d moved = at - (version == 4 ? Vector3d(origin + turn(yaw) * (o.p - origin)) : o.p);
        if (version == 4) value["position.x"] = moved.dot(right), value["position.y"] = moved.dot(away);
        else {
          value["distance"] = moved.dot(away);
          c.require(std::abs(moved.dot(right)) < 1e-9, "the noise of the distance moves an object sideways");
        }
        if (l.known)
          for (auto & [key, walk] : walks) walk.steps.push_back(value[key] - walk.mean - walk.phi * ((i == 1 ? 0 : l.value[key]) - walk.mean));
        l.value = value;
      }
      l.known = tp;
      ++k;
    }
  }
  for (const auto & [key, walk] : walks) {
    const double n = walk.steps.size();
    if (n < 30) continue;
    const double sd = walk.sd * std::sqrt(1 - walk.phi * walk.phi);
    double mean = 0, var = 0;
    for (const double e : walk.steps) mean += e / n;
    for (const double e : walk.steps) var += (e - mean) * (e - mean) / (n - 1);
    c.require(std::abs(mean) <= 6 * sd / std::sqrt(n) + 1e-9, "the ", key, " noise is off its mean by ", mean, " over ", n, " steps");
    c.require(std::abs(std::sqrt(var) - sd) <= 6 * sd / std::sqrt(2 * n) + 1e-9, "the steps of the ", key, " noise spread by ", std::sqrt(var), " instead of ", sd, " over ", n, " steps");
    for (const auto & [other, walk2] : walks) {
      if (other <= key) continue;
      double product = 0;
      for (std::size_t j = 0; j < walk.steps.size(); ++j) product += walk.steps[j] * walk2.steps[j];
      c.require(std::abs(product) <= 6 * std::sqrt(n) * sd * walk2.sd * std::sqrt(1 - walk2.phi * walk2.phi) + 1e-9, "the ", key, " noise and the ", other, " noise go together");
    }
    c.nontrivial();
  }
  for (const auto & [what, count] : moves)
    for (int before = 0; before < 2; ++before) {
      const double phi = what == "flips" ? flip_phi : tp_phi, p = before * phi + (1 - phi) * (what == "flips" ? flip_rate : rate), n = count[before][1];
      c.require(std::abs(count[before][0] - n * p) <= 6 * std::sqrt(n * p * (1 - p)) + 1, what, ": ", count[before][0], " of ", n, " where the probability is ", p);
    }
}
