// Generated road networks: several lanes side by side, bends, slopes, forks, merges, detours, rings, shoulders, crossings.
#ifndef ROADS_HPP_
#define ROADS_HPP_
#include <minilanelet/lanelet.hpp>
#include <traffic_simulator/lanelet_wrapper/lanelet_map.hpp>
#include <traffic_simulator/lanelet_wrapper/lanelet_wrapper.hpp>

#include "vf.hpp"

namespace roads
{
using Id = lanelet::Id;
struct V
{
  double x = 0, y = 0, z = 0;
};
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator*(V a, double k) { return {a.x * k, a.y * k, a.z * k}; }
inline double norm2d(V a) { return std::hypot(a.x, a.y); }
inline double norm(V a) { return std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }

struct Lane
{
  Id id = 0;
  int road = 0, index = 0;               // the road and the position in it, from the left
  std::vector<Id> next, previous;        // by connection of the roads
  Id left = 0, right = 0;                // beside it in the same road
  bool to_left = false, to_right = false;  // the line between permits changing over
  std::string subtype = "road", turn;
  double speed_limit = 0;  // km/h as given, 0: none
  bool custom = false;     // has a centre line of its own
  std::vector<V> left_bound, right_bound, center;  // center: after loading
  double length = 0;       // of the centre line, in 2D
  bool vehicle() const { return subtype == "road"; }
};
struct Node
{
  V at;
  double yaw = 0;
  int lanes = 1;
  double width = 3;
  std::vector<lanelet::Point3d> row;  // from the left
  std::vector<int> out, in;
};
struct Road
{
  int from = 0, to = 0;
  std::vector<Id> lanes;
  double length = 0, curvature = 0, climb = 0, bump = 0;
};
struct Options
{
  bool rings = true, forks = true, slopes = true, shoulders = true, crosswalks = true, detours = true, custom = true;
  int max_lanes = 3, max_roads = 9;
  double max_length = 60, min_length = 3;
  double max_curvature = 0.03;
};
struct Net
{
  std::vector<Node> nodes;
  std::vector<Road> roads;
  std::map<Id, Lane> lanes;
  std::vector<Id> ids;  // of the lanes for vehicles
  std::vector<Id> crosswalks;
  lanelet::LaneletMapPtr map;
  std::function<Id()> fresh;
  std::string text;

  void activate()
  {
    static int count = 0;
    minilanelet::builder() = [this](auto &&...) { return map; };
    traffic_simulator::lanelet_wrapper::LaneletWrapper::activate("net" + std::to_string(++count));
    auto loaded = traffic_simulator::lanelet_wrapper::LaneletWrapper::map();
    for (auto & [id, l] : lanes) {
      l.center.clear();
      for (const auto & p : loaded->laneletLayer.get(id).centerline()) l.center.push_back({p.x(), p.y(), p.z()});
      l.length = 0;
      for (std::size_t i = 1; i < l.center.size(); ++i) l.length += norm2d(l.center[i] - l.center[i - 1]);
      const double told = traffic_simulator::lanelet_wrapper::lanelet_map::laneletLength(id);
      if (std::abs(told - l.length) > 1e-9 * (1 + l.length)) throw vf::Failure("the length of lane " + std::to_string(id) + " is " + std::to_string(told) + ", not " + std::to_string(l.length));
      l.length = told;  // rounded the same way
    }
  }
  const Lane & operator[](Id id) const { return lanes.at(id); }
};

inline std::vector<lanelet::Point3d> row(const Net & net, V at, double yaw, int lanes, double width)
{
  std::vector<lanelet::Point3d> r;
  for (int i = 0; i <= lanes; ++i) {
    const double o = (lanes * 0.5 - i) * width;
    r.emplace_back(net.fresh(), at.x - std::sin(yaw) * o, at.y + std::cos(yaw) * o, at.z);
  }
  return r;
}
/// position and heading after distance d along an arc
inline std::pair<V, double> arc(V at, double yaw, double k, double d)
{
  if (std::abs(k) < 1e-9) return {{at.x + std::cos(yaw) * d, at.y + std::sin(yaw) * d, at.z}, yaw};
  const double e = yaw + k * d;
  return {{at.x + (std::sin(e) - std::sin(yaw)) / k, at.y - (std::cos(e) - std::cos(yaw)) / k, at.z}, e};
}
inline int addNode(Net & net, V at, double yaw, int lanes, double width)
{
  Node n;
  n.at = at, n.yaw = yaw, n.lanes = lanes, n.width = width, n.row = row(net, at, yaw, lanes, width);
  net.nodes.push_back(n);
  return static_cast<int>(net.nodes.size()) - 1;
}
/// lays a road between two nodes that an arc connects; bump: sideways detour
inline int addRoad(Net & net, vf::Src & s, const Options & o, int from, int to, double length, double k, double bump, const std::string & turn)
{
  const Node a = net.nodes[from], b = net.nodes[to];
  Road r;
  r.from = from, r.to = to, r.length = length, r.curvature = k, r.bump = bump;
  const int index = static_cast<int>(net.roads.size());
  const int parts = std::max<int>(1, std::min<int>(12, static_cast<int>(length / s.pick({5.0, 2.0, 12.0})) + (std::abs(k) > 1e-4 or bump != 0 ? 3 : 0)));
  std::vector<std::vector<lanelet::Point3d>> lines(a.lanes + 1);
  for (int i = 0; i <= parts; ++i) {
    if (i == 0 || i == parts) {
      for (int j = 0; j <= a.lanes; ++j) lines[j].push_back((i ? b : a).row[j]);
      continue;
    }
    const double t = static_cast<double>(i) / parts;
    auto [p, yaw] = arc(a.at, a.yaw, k, length * t);
    p.z = a.at.z + (b.at.z - a.at.z) * t;
    const double side = bump * std::pow(std::sin(M_PI * t), 2), slope = bump * M_PI * std::sin(2 * M_PI * t) / length;
    p = p + V{-std::sin(yaw) * side, std::cos(yaw) * side, 0};
    const auto w = row(net, p, yaw + std::atan(slope), a.lanes, a.width);
    for (int j = 0; j <= a.lanes; ++j) lines[j].push_back(w[j]);
  }
  std::vector<lanelet::LineString3d> bounds;
  std::vector<bool> open;
  for (int j = 0; j <= a.lanes; ++j) {
    lanelet::LineString3d l(net.fresh(), lines[j]);
    open.push_back(j > 0 && j < a.lanes && s.chance(65));
    l.setAttribute("type", "line_thin");
    l.setAttribute("subtype", open.back() ? "dashed" : "solid");
    bounds.push_back(l);
  }
  const bool shoulder = o.shoulders && a.lanes >= 2 && s.chance(12);
  const double limit = s.chance(40) ? 0 : s.pick({10.0, 20.0, 30.0, 40.0, 50.0, 60.0, 80.0});
  for (int j = 0; j < a.lanes; ++j) {
    Lane l;
    l.id = net.fresh(), l.road = index, l.index = j, l.turn = turn, l.speed_limit = limit;
    if (shoulder && j == 0) l.subtype = "road_shoulder";
    lanelet::Lanelet ll(l.id, bounds[j], bounds[j + 1]);
    ll.setAttribute("type", "lanelet"), ll.setAttribute("subtype", l.subtype), ll.setAttribute("location", "urban"), ll.setAttribute("one_way", "yes");
    if (!turn.empty()) ll.setAttribute("turn_direction", turn);
    if (limit > 0) ll.setAttribute("speed_limit", std::to_string(static_cast<int>(limit)));
    if (o.custom && s.chance(8)) {
      l.custom = true;
      std::vector<lanelet::Point3d> c;
      for (std::size_t i = 0; i < lines[j].size(); ++i) {
        const auto &p = lines[j][i], &q = lines[j + 1][i];
        c.emplace_back(net.fresh(), (p.x() + q.x()) / 2, (p.y() + q.y()) / 2, (p.z() + q.z()) / 2);
      }
      ll.setCenterline(lanelet::LineString3d(net.fresh(), c));
    }
    for (const auto & p : lines[j]) l.left_bound.push_back({p.x(), p.y(), p.z()});
    for (const auto & p : lines[j + 1]) l.right_bound.push_back({p.x(), p.y(), p.z()});
    r.lanes.push_back(l.id);
    net.map->add(ll);
    net.lanes[l.id] = l;
  }
  for (int j = 0; j + 1 < a.lanes; ++j) {
    auto &l = net.lanes[r.lanes[j]], &m = net.lanes[r.lanes[j + 1]];
    l.right = m.id, m.left = l.id;
    l.to_right = m.to_left = open[j + 1];
  }
  net.nodes[from].out.push_back(index), net.nodes[to].in.push_back(index);
  net.roads.push_back(r);
  return index;
}
/// the connections follow from the nodes
inline void connect(Net & net)
{
  for (auto & [id, l] : net.lanes) l.next.clear(), l.previous.clear();
  for (const auto & n : net.nodes)
    for (int i : n.in)
      for (int o : n.out)
        for (int j = 0; j < n.lanes; ++j) {
          auto &a = net.lanes[net.roads[i].lanes[j]], &b = net.lanes[net.roads[o].lanes[j]];
          a.next.push_back(b.id), b.previous.push_back(a.id);
        }
  net.ids.clear();
  for (auto & [id, l] : net.lanes)
    if (l.vehicle()) net.ids.push_back(id);
}
inline Id addCrosswalk(Net & net, V at, double yaw, double half_length, double width)
{
  // runs across the road: its direction is yaw + 90 degrees
  const V d{-std::sin(yaw), std::cos(yaw), 0}, n{-d.y, d.x, 0};
  auto side = [&](double w) {
    std::vector<lanelet::Point3d> p;
    for (double e : {-half_length, half_length}) {
      const V q = at + d * e + n * w;
      p.emplace_back(net.fresh(), q.x, q.y, q.z);
    }
    return lanelet::LineString3d(net.fresh(), p);
  };
  Lane l;
  l.id = net.fresh(), l.road = -1, l.subtype = "crosswalk";
  auto left = side(width / 2), right = side(-width / 2);
  for (const auto & p : left) l.left_bound.push_back({p.x(), p.y(), p.z()});
  for (const auto & p : right) l.right_bound.push_back({p.x(), p.y(), p.z()});
  lanelet::Lanelet ll(l.id, left, right);
  ll.setAttribute("type", "lanelet"), ll.setAttribute("subtype", "crosswalk"), ll.setAttribute("location", "urban"), ll.setAttribute("one_way", "no"), ll.setAttribute("participant:pedestrian", "yes");
  net.map->add(ll);
  net.lanes[l.id] = l;
  net.crosswalks.push_back(l.id);
  return l.id;
}
inline std::unique_ptr<Net> generate(vf::Src & s, Options o = {})
{
  auto net = std::make_unique<Net>();
  net->map = std::make_shared<lanelet::LaneletMap>();
  auto used = std::make_shared<std::set<Id>>();
  auto * src = &s;
  // identifiers in no particular order
  auto counter = std::make_shared<Id>(1000);
  const Id step = s.pick({Id{1}, Id{7919}, Id{3571}});
  net->fresh = [used, src, counter, step] {
    (void)src;
    for (;;) {
      *counter = 1000 + (*counter - 1000 + step) % 100003;
      if (used->insert(*counter).second) return *counter;
    }
  };
  auto & n = *net;
  const double width = s.pick({3.0, 2.5, 3.5, 4.0});
  const int lanes = static_cast<int>(s.integer(1, o.max_lanes));
  const V origin{s.pick({0.0, 100.0, -5000.0}), s.pick({0.0, 3.25, 70000.0}), s.pick({0.0, 20.0, -3.0})};
  const double yaw = s.real(-M_PI, M_PI);
  if (o.rings && s.chance(15)) {
    const int parts = static_cast<int>(s.integer(2, 6));
    const double radius = s.uniform(15, 60) + lanes * width, way = s.boolean() ? 1 : -1;
    const double part = 2 * M_PI * radius / parts;
    std::vector<int> nodes;
    V at = origin;
    double h = yaw;
    for (int i = 0; i < parts; ++i) {
      nodes.push_back(addNode(n, at, h, lanes, width));
      std::tie(at, h) = arc(at, h, way / radius, part);
    }
    for (int i = 0; i < parts; ++i) {
      const auto a = nodes[i], b = nodes[(i + 1) % parts];
      // the last arc ends where the first one begins
      addRoad(n, s, o, a, b, part, way / radius, 0, s.chance(20) ? s.pick({std::string("left"), std::string("straight"), std::string("right")}) : "");
    }
  } else {
    addNode(n, origin, yaw, lanes, width);
  }
  const int more = static_cast<int>(n.roads.empty() ? s.integer(1, o.max_roads) : s.length(3));
  for (int i = 0; i < more; ++i) {
    // detours join the same two nodes as an existing road
    if (o.detours && o.forks && !n.roads.empty() && s.chance(10)) {
      const auto r = n.roads[s.index(n.roads.size())];
      if (r.bump == 0 && r.length > 20 && n.nodes[r.from].out.size() < 3 && n.nodes[r.to].in.size() < 3) {
        addRoad(n, s, o, r.from, r.to, r.length, r.curvature, (s.boolean() ? 1 : -1) * r.length * s.uniform(0.1, 0.2), s.pick({std::string("left"), std::string("right")}));
        continue;
      }
    }
    const bool backwards = o.forks && s.chance(25);
    int at = static_cast<int>(n.nodes.size()) - 1;
    if (o.forks && s.chance(35)) at = static_cast<int>(s.index(n.nodes.size()));
    const auto & node = n.nodes[at];
    auto & there = backwards ? node.in : node.out;
    if (there.size() >= (o.forks ? 3u : 1u)) continue;
    const double length = s.chance(10) ? s.uniform(o.min_length, 6) : s.uniform(6, o.max_length);
    double k = s.chance(45) ? 0 : s.uniform(-1, 1) * o.max_curvature;
    k = std::clamp(k, -1.2 / length, 1.2 / length);
    std::string turn;
    if (s.chance(40)) turn = s.pick({std::string("straight"), std::string("left"), std::string("right")});
    const double climb = o.slopes && s.chance(25) ? s.uniform(-0.05, 0.05) * length : 0;
    int other;
    const V from = node.at;
    const double heading = node.yaw;
    if (backwards) {
      auto [p, h] = arc(from, heading + M_PI, -k, length);
      p.z = from.z + climb;
      other = addNode(n, p, h - M_PI, lanes, width);
      addRoad(n, s, o, other, at, length, k, 0, turn);
    } else {
      auto [p, h] = arc(from, heading, k, length);
      p.z = from.z + climb;
      other = addNode(n, p, h, lanes, width);
      addRoad(n, s, o, at, other, length, k, 0, turn);
    }
  }
  if (n.roads.empty()) {
    auto [p, h] = arc(origin, yaw, 0, 20);
    addRoad(n, s, o, 0, addNode(n, p, h, lanes, width), 20, 0, 0, "");
  }
  connect(n);
  if (o.crosswalks && s.chance(40)) {
    const auto & r = n.roads[s.index(n.roads.size())];
    if (r.bump == 0) {
      const double d = r.length * s.uniform(0.1, 0.9);
      auto [p, h] = arc(n.nodes[r.from].at, n.nodes[r.from].yaw, r.curvature, d);
      p.z = n.nodes[r.from].at.z + (n.nodes[r.to].at.z - n.nodes[r.from].at.z) * d / r.length;
      addCrosswalk(n, p, h + s.uniform(-0.3, 0.3), lanes * width / 2 + s.uniform(0.5, 3), s.uniform(1.5, 4));
    }
  }
  std::ostringstream t;
  t << lanes << " lane(s) of " << width << " m";
  for (const auto & r : n.roads) {
    t << "; " << r.from << "->" << r.to << " " << r.length << " m";
    if (r.curvature != 0) t << " curvature " << r.curvature;
    if (r.bump != 0) t << " detour " << r.bump;
    t << " lanes";
    for (auto id : r.lanes) t << " " << id << (n.lanes[id].vehicle() ? "" : "(shoulder)") << (n.lanes[id].to_right ? "|" : "");
    if (!n.lanes[r.lanes[0]].turn.empty()) t << " " << n.lanes[r.lanes[0]].turn;
  }
  for (auto id : n.crosswalks) t << "; crosswalk " << id;
  n.text = t.str();
  return net;
}
}  // namespace roads
#endif
