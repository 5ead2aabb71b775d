// The lidar: rays against boxes with a slab test, scan timing and delay, and the noise model with deterministic parameters.
#include <get_parameter/get_parameter.hpp>
#include <simple_sensor_simulator/exception.hpp>
#include <simple_sensor_simulator/sensor_simulation/lidar/lidar_sensor.hpp>

#include "sensors.hpp"
using namespace simple_sensor_simulator;
using sensors::Obj;

namespace
{
const std::string topic_name = "/lidar";
// where the ray from o along the unit vector u meets the surface of the box; margin > 0 when the answer is certain
struct Meeting
{
  bool hit = false;
  double t = 1e300, margin = 0;
};
Meeting meet(const Obj & b, const Eigen::Vector3d & o, const Eigen::Vector3d & u)
{
  const Eigen::Vector3d r = b.q.conjugate() * (o - b.middle()), v = b.q.conjugate() * u, half(b.d / 2, b.w / 2, b.h / 2);
  Meeting m;
  double in = -1e300, out = 1e300;
  for (int k = 0; k < 3; ++k) {
    if (std::abs(v[k]) < 1e-12) {
      if (std::abs(r[k]) > half[k]) in = 1e300;
      continue;
    }
    double a = (-half[k] - r[k]) / v[k], c = (half[k] - r[k]) / v[k];
    if (a > c) std::swap(a, c);
    in = std::max(in, a), out = std::min(out, c);
  }
  m.hit = out >= in && out >= 0;
  m.t = in >= 0 ? in : out;
  // how far the ray passes inside or outside of the box
  double depth = -1e300;
  const auto signed_distance = [&](double t) { return ((r + t * v).cwiseAbs() - half).maxCoeff(); };
  if (m.hit) {
    const double a = std::max(in, 0.0);
    depth = -signed_distance((a + out) / 2);
    if (out < 1e-2 || std::abs(in) < 1e-2) depth = 0;
    m.margin = depth;
  } else {
    double lo = 0, hi = 400;  // the distance to the box along the ray is convex
    for (int i = 0; i < 100; ++i) {
      const double a = lo + (hi - lo) / 3, c = hi - (hi - lo) / 3;
      (signed_distance(a) < signed_distance(c) ? hi : lo) = signed_distance(a) < signed_distance(c) ? c : a;
    }
    m.margin = signed_distance(lo);
  }
  return m;
}
struct Hit
{
  bool hit = false, open = false;
  double t = 1e300;
  std::set<std::string> names;  // boxes it may belong to
};
Hit nearest(const std::vector<Obj> & boxes, const Eigen::Vector3d & o, const Eigen::Vector3d & u)
{
  const double sure = 2e-3;
  Hit h;
  double best = 1e300;
  bool unclear = false;
  std::vector<std::pair<Meeting, const Obj *>> all;
  for (const auto & b : boxes) {
    const auto m = meet(b, o, u);
    if (m.hit && std::abs(m.t - 300) < 1e-2) unclear = true;
    if (m.hit && m.t > 300) continue;
    if (std::abs(m.margin) < sure) unclear = true;
    if (m.hit) best = std::min(best, m.t);
    all.push_back({m, &b});
  }
  h.hit = best < 1e300, h.t = best;
  h.open = unclear;
  for (const auto & [m, b] : all)
    if (m.hit && m.t < best + 1e-2) h.names.insert(b->name);
  return h;
}
void set(const std::string & name, const rclcpp::ParameterValue & v) { shim::parameter_overrides()[topic_name + name] = v; }
struct Bin
{
  double radius, radial, tangential, rate;
};
struct Config
{
  std::string name;
  double x_radius = 1;
  std::vector<std::string> types, subtypes, names;
  std::vector<Bin> bins;
};
bool wild(const char * p, const char * t)
{
  if (!*p) return !*t;
  if (*p == '*') return wild(p + 1, t) || (*t && wild(p, t + 1));
  return *t && (*p == '?' || *p == *t) && wild(p + 1, t + 1);
}
bool any(const std::vector<std::string> & ps, const std::string & t)
{
  for (const auto & p : ps)
    if (wild(p.c_str(), t.c_str())) return true;
  return false;
}
const std::map<int, std::string> type_names{{0, "EGO"}, {1, "VEHICLE"}, {2, "PEDESTRIAN"}, {3, "MISC_OBJECT"}};
const std::vector<std::string> subtype_names{"UNKNOWN", "CAR", "TRUCK", "BUS", "TRAILER", "MOTORCYCLE", "BICYCLE", "PEDESTRIAN"};
}  // namespace

VF_PROP("scans", 1200, 20000)
{
  shim::parameter_overrides().clear();
  common::getParameterNode().get_node_parameters_interface()->clear();
  shim::topics<sensor_msgs::msg::PointCloud2>()[topic_name] = {};
  auto publisher = std::make_shared<rclcpp::Publisher<sensor_msgs::msg::PointCloud2>>(topic_name);
  auto & topic = shim::topics<sensor_msgs::msg::PointCloud2>()[topic_name];

  simulation_api_schema::LidarConfiguration conf;
  const double period = s.pick({0.1, 0.2, 0.05}), delay = s.pick({0.0, 0.0, 0.5, 1.3, 2.5}) * period;
  const double resolution = s.pick({0.1, 0.13, 0.35, 0.05, 0.07, 1.0, 2.0, 7.0});
  std::vector<double> vertical;
  for (std::size_t n = 1 + s.length(4); n; --n) vertical.push_back(s.chance(50) ? s.real(-0.1, 0.1) : s.real(-0.5, 0.5));
  conf.set_entity("ego"), conf.set_scan_duration(period), conf.set_lidar_sensor_delay(delay), conf.set_horizontal_resolution(resolution);
  for (const double v : vertical) conf.add_vertical_angles(v);
  c.log << "every " << period << " s, delay " << delay << ", resolution " << resolution << ", angles";
  for (const double v : vertical) c.log << " " << v;
  c.log << "\n";

  // the noise model
  const bool noisy = s.chance(40);
  std::vector<Config> configs;
  if (noisy) {
    if (s.chance(4)) {
      set(".noise.model.version", rclcpp::ParameterValue(int(s.pick({0, 2, 3, -1}))));
      VF_THROWS(common::Error, LidarSensor<sensor_msgs::msg::PointCloud2>(0, conf, publisher));
      return;
    }
    set(".noise.model.version", rclcpp::ParameterValue(1));
    set(".seed", rclcpp::ParameterValue(int(s.index(3))));
    const std::size_t n = s.index(3);
    for (std::size_t i = 0; i < n; ++i) {
      Config k;
      k.name = "config" + std::to_string(i);
      k.x_radius = s.pick({1.0, 0.5, 3.0});
      // the sets of entities are disjoint: the first by name pattern, the second the rest
      if (n == 2) k.names = i == 0 ? std::vector<std::string>{s.pick({std::string("?pc1"), std::string("n*1"), std::string("npc1")}), s.pick({std::string("npc3"), std::string("*c3")})} : std::vector<std::string>{"npc2", s.pick({std::string("npc4"), std::string("*4")})};
      else k.names = {s.pick({std::string("*"), std::string("npc?"), std::string("*c2"), std::string("npc")})};
      k.types = s.chance(70) ? std::vector<std::string>{"*"} : s.pick(std::vector<std::vector<std::string>>{{"*"}, {"VEHICLE"}, {"PEDESTRIAN", "MISC*"}, {"V?HICLE", "EGO"}, {}});
      k.subtypes = s.chance(60) ? std::vector<std::string>{"*"} : s.pick(std::vector<std::vector<std::string>>{{"*"}, {"CAR", "BUS"}, {"*C*"}, {"T*", "?IC*", "UNKNOWN", "P*"}});
      double radius = 0;
      for (std::size_t m = 1 + s.length(3); m; --m) {
        radius += s.real(0.5, 20);
        k.bins.push_back({radius, s.real(-0.5, 0.5), s.real(-0.5, 0.5), s.pick({1.0, 1.0, 0.0})});
      }
      std::vector<double> radii, radial, tangential, rate;
      for (const auto & b : k.bins) radii.push_back(b.radius), radial.push_back(b.radial), tangential.push_back(b.tangential), rate.push_back(b.rate);
      const std::vector<double> zero(radii.size(), 0.0);
      const std::string base = ".noise.v1." + k.name + ".";
      set(base + "noise_application_entities.types", rclcpp::ParameterValue(k.types));
      set(base + "noise_application_entities.subtypes", rclcpp::ParameterValue(k.subtypes));
      set(base + "noise_application_entities.names", rclcpp::ParameterValue(k.names));
      set(base + "true_positive.rate.ellipse_normalized_x_radius", rclcpp::ParameterValue(k.x_radius));
      set(base + "ellipse_y_radii", rclcpp::ParameterValue(radii));
      set(base + "distance.radial.mean.values", rclcpp::ParameterValue(radial));
      set(base + "distance.tangential.mean.values", rclcpp::ParameterValue(tangential));
      set(base + "distance.radial.standard_deviation.values", rclcpp::ParameterValue(zero));
      set(base + "distance.tangential.standard_deviation.values", rclcpp::ParameterValue(zero));
      set(base + "true_positive.rate.values", rclcpp::ParameterValue(rate));
      configs.push_back(k);
      c.log << "noise " << k.name << " ellipse " << k.x_radius << " for";
      for (const auto & x : k.types) c.log << " " << x;
      c.log << ";";
      for (const auto & x : k.subtypes) c.log << " " << x;
      c.log << ";";
      for (const auto & x : k.names) c.log << " " << x;
      for (const auto & b : k.bins) c.log << " (within " << b.radius << ": radial " << b.radial << " tangential " << b.tangential << " rate " << b.rate << ")";
      c.log << "\n";
    }
  }
  double now = s.real(0, 10), last = now;
  std::unique_ptr<LidarSensor<sensor_msgs::msg::PointCloud2>> sensor;
  sensor = std::make_unique<LidarSensor<sensor_msgs::msg::PointCloud2>>(now, conf, publisher);

  struct Scan
  {
    double time;
    std::int64_t stamp;
    Obj ego;
    std::vector<Obj> boxes;
  };
  std::deque<Scan> queue;
  std::map<std::string, std::pair<int, int>> kinds;  // entities keep their types
  std::size_t published = 0, points = 0;
  for (std::size_t n = 1 + s.length(4); n; --n) {
    now += s.pick({period, period, period / 2, period * 1.5, period - 0.001, period - 0.004});
    Scan scan;
    scan.ego = sensors::object(s, "ego", 50);
    scan.ego.q = sensors::orientation(s, s.chance(80));
    scan.ego.type = s.chance(90) ? 0 : 1;
    for (std::size_t i = 1, m = s.index(5); i <= m; ++i) {
      auto o = sensors::object(s, "npc" + std::to_string(i), s.pick({5.0, 5.0, 15.0, 15.0, 40.0, 350.0}));
      o.p += scan.ego.p;
      if (kinds.count(o.name)) o.type = kinds[o.name].first, o.subtype = kinds[o.name].second;
      kinds[o.name] = {o.type, o.subtype};
      if (s.chance(80)) o.p.z() = scan.ego.p.z();
      scan.boxes.push_back(o);
    }
    std::vector<sensors::EntityStatus> all;
    for (const auto & o : scan.boxes) all.push_back(o.proto());
    const bool has_ego = !s.chance(2);
    if (has_ego) all.insert(all.begin() + s.index(all.size() + 1), scan.ego.proto());
    const double late = now - last - period;
    if (std::abs(late + 0.002) < 1e-6) return;
    const bool due = late > -0.002;
    scan.time = now, scan.stamp = static_cast<std::int64_t>(now * 1e9);
    c.log << "at " << now << (due ? " due " : " not due ") << (has_ego ? "" : "no ego ") << scan.ego.text() << "\n";
    for (const auto & o : scan.boxes) c.log << "  " << o.text() << "\n";
    const rclcpp::Time stamp(scan.stamp);
    if (due && !has_ego) {
      VF_THROWS(SimulationRuntimeError, sensor->update(now, all, stamp));
      return;
    }
    const auto before = topic.published;
    sensor->update(now, all, stamp);
    const auto seen = sensor->getDetectedObjects();
    if (due) last = now, queue.push_back(scan);
    else c.require(seen.empty(), "objects are detected without a scan");

    const Eigen::Matrix3d R = scan.ego.q.toRotationMatrix();
    const auto direction = [](double horizontal, double pitch) { return Eigen::Vector3d(std::cos(horizontal) * std::cos(pitch), std::sin(horizontal) * std::cos(pitch), -std::sin(pitch)); };
    const double full = 2 * M_PI;
    const std::size_t turns = static_cast<std::size_t>(full / resolution);
    if (due) {
      std::set<std::string> must, may;
      for (std::size_t k = 1; k <= turns + 1; ++k)
        for (const double v : vertical) {
          const Eigen::Vector3d u = scan.ego.q * direction(k * resolution, v);
          const auto h = nearest(scan.boxes, scan.ego.p, u);
          if (h.open) {
            for (const auto & b : scan.boxes) {
              const auto m = meet(b, scan.ego.p, u);
              if ((m.hit || m.margin < 0.1) && m.t > h.t - 0.1) may.insert(b.name);
              if (std::abs(m.margin) < 0.1) may.insert(b.name);
            }
            may.insert(h.names.begin(), h.names.end());
          } else if (h.hit) {
            may.insert(h.names.begin(), h.names.end());
            if (h.names.size() == 1) must.insert(h.names.begin(), h.names.end());
          }
        }
      for (const auto & x : must) c.require(seen.count(x), x, " is hit by a ray but not detected");
      for (const auto & x : seen) c.require(may.count(x), x, " is detected but no ray hits it first");
      if (!must.empty()) c.label("detected");
      if (scan.boxes.size() > seen.size()) c.label("undetected");
    }
    const bool out = !queue.empty() && now - queue.front().time >= delay;
    if (!queue.empty() && std::abs(now - queue.front().time - delay) < 1e-9 && delay > 0) return;
    c.require(topic.published == before + out, "published ", topic.published - before, " point clouds where ", int(out), " is due");
    if (!out) continue;
    const auto first = queue.front();
    queue.pop_front();
    ++published;
    const auto & m = *topic.history.back();
    c.require(m.header.frame_id == "base_link", "the frame is ", m.header.frame_id);
    c.require(rclcpp::Time(m.header.stamp).nanoseconds() == first.stamp, "the stamp is not the time of the scan");
    c.require(m.point_step == sizeof(pcl::PointXYZI) && m.data.size() == std::size_t(m.width) * m.height * m.point_step, "the cloud is malformed");
    // expected points, after noise
    struct Expected
    {
      Eigen::Vector3d p;
      bool must, used = false;
    };
    std::vector<Expected> expected;
    const std::size_t limit = turns + 1;
    for (std::size_t k = 1; k <= limit; ++k)
      for (const double v : vertical) {
        const Eigen::Vector3d u = direction(k * resolution, v);
        const auto h = nearest(first.boxes, first.ego.p, first.ego.q * u);
        const bool sure = h.hit && !h.open && h.names.size() == 1 && (k < limit || std::abs(limit * resolution - resolution - full) > 1e-6);
        // every distance it may have
        std::vector<std::pair<double, const Obj *>> ts;
        for (const auto & b : first.boxes) {
          const auto q = meet(b, first.ego.p, first.ego.q * u);
          if (sure ? (q.hit && q.t == h.t) : (q.hit || std::abs(q.margin) < 2e-3)) ts.push_back({q.t, &b});
        }
        for (const auto & [t, b] : ts) {
          if (t > 301) {
            expected.push_back({Eigen::Vector3d::Zero(), false});
            continue;
          }
          Eigen::Vector3d p = u * t;
          const Config * use = nullptr;
          for (const auto & k2 : configs)
            if (any(k2.types, type_names.at(b->type)) && any(k2.subtypes, subtype_names.at(b->subtype)) && any(k2.names, b->name)) use = &k2;
          bool must = sure;
          if (use) {
            const double dx = (b->p.x() - first.ego.p.x()) / use->x_radius, dy = b->p.y() - first.ego.p.y(), d = std::hypot(dx, dy);
            const Bin * bin = &use->bins.back();
            bool tie = false;
            for (auto i = use->bins.rbegin(); i != use->bins.rend(); ++i) {
              if (std::abs(d - i->radius) < 1e-6) tie = true;
              if (d < i->radius) bin = &*i;
            }
            if (tie) return;
            if (bin->rate == 0) continue;
            const double l = p.norm();
            if (l < 0.05) return;
            const Eigen::Vector3d radial = p / l;
            p += radial * bin->radial + Eigen::Vector3d(radial.y(), -radial.x(), 0) * bin->tangential;
            c.label("noise");
          }
          expected.push_back({p, must});
        }
      }
    const auto eps = [](double l) { return 2e-3 + 1e-5 * l; };
    for (std::size_t i = 0; i < std::size_t(m.width) * m.height; ++i) {
      pcl::PointXYZI q;
      std::memcpy(&q, m.data.data() + i * m.point_step, sizeof(q));
      const Eigen::Vector3d p(q.x, q.y, q.z);
      std::size_t best = expected.size();
      double d = 1e300;
      for (std::size_t j = 0; j < expected.size(); ++j)
        if (!expected[j].used && (expected[j].p - p).norm() < d) d = (expected[j].p - p).norm(), best = j;
      bool loose = false;
      for (const auto & e : expected) loose |= !e.must;
      if (d > eps(p.norm())) {
        // a ray that grazes an edge
        c.require(loose, "the point (", p.transpose(), ") lies on no ray where it meets a box first; the nearest such point is ", d, " m off");
        continue;
      }
      if (best < expected.size()) expected[best].used = true;
      ++points;
    }
    for (const auto & e : expected) c.require(!e.must || e.used, "the point (", e.p.transpose(), ") of a ray that hits a box is missing");
  }
  if (published) c.label("published");
  if (delay > 0 && published) c.label("delayed");
  if (points) c.label("points"), c.nontrivial();
}
