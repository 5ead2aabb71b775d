// Participants on a generated road network, declared in a scenario and driven by the stand-in plugin.
#ifndef CAST_HPP
#define CAST_HPP
#include "scenario.hpp"
#include "lanes.hpp"
namespace cast
{
using namespace lanes;
using scenario::num;
using scenario::Plugin;
using scenario::Run;
using scenario::Xml;
namespace ts = traffic_simulator;
namespace osc = openscenario_interpreter;
constexpr double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
using Status = std::shared_ptr<ts::CanonicalizedEntityStatus>;
struct Participant
{
  std::string name, kind, catalog_type;
  bool added = false, moved = false;
  Pose pose;
  V speed{0, 0, 0};
  double acceleration = 0, still = 0;
  traffic_simulator_msgs::msg::BoundingBox box;
  std::optional<CanonicalizedLaneletPose> lane;
};
inline V rotate(const geometry_msgs::msg::Quaternion & q, V v, bool back = false)
{
  const double x = back ? -q.x : q.x, y = back ? -q.y : q.y, z = back ? -q.z : q.z, w = q.w;
  const double tx = 2 * (y * v.z - z * v.y), ty = 2 * (z * v.x - x * v.z), tz = 2 * (x * v.y - y * v.x);
  return {v.x + w * tx + y * tz - z * ty, v.y + w * ty + z * tx - x * tz, v.z + w * tz + x * ty - y * tx};
}
inline V relative(const Pose & from, const Pose & to) { return rotate(from.orientation, at(to.position) - at(from.position), true); }
inline double magnitude(V v) { return std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z); }

struct World
{
  std::unique_ptr<Net> net;
  std::vector<Participant> all;
  std::map<std::string, std::vector<int>> selections;
  scenario::Parts parts;

  std::vector<int> members(const std::string & name) const
  {
    if (auto i = selections.find(name); i != selections.end()) return i->second;
    for (std::size_t i = 0; i < all.size(); ++i)
      if (all[i].name == name) return {static_cast<int>(i)};
    return {};
  }
};
inline Xml boundingBox(const traffic_simulator_msgs::msg::BoundingBox & b)
{
  return Xml("BoundingBox", {}, {Xml("Center", {{"x", num(b.center.x)}, {"y", num(b.center.y)}, {"z", num(b.center.z)}}),
    Xml("Dimensions", {{"width", num(b.dimensions.y)}, {"length", num(b.dimensions.x)}, {"height", num(b.dimensions.z)}})});
}
inline Xml position(const LaneletPose & p)
{
  return Xml("Position", {}, {Xml("LanePosition", {{"roadId", ""}, {"laneId", std::to_string(p.lanelet_id)}, {"s", num(p.s)}, {"offset", num(p.offset)}},
    {Xml("Orientation", {{"type", "relative"}, {"h", num(p.rpy.z)}, {"p", "0"}, {"r", "0"}})})});
}
inline LaneletPose anywhere(vf::Src & s, const Net & net)
{
  auto p = somewhere(s, net, net.ids, 0.3);
  p.s = net[p.lanelet_id].length * s.uniform(0.05, 0.95);
  switch (s.index(4)) {
    case 0: p.rpy.z = s.uniform(-0.6, 0.6); break;
    case 1: p.rpy.z = M_PI - s.uniform(-0.6, 0.6); break;
    default: break;
  }
  p.rpy.z = wrap(p.rpy.z);
  return p;
}
inline std::unique_ptr<World> generate(vf::Src & s)
{
  auto w = std::make_unique<World>();
  roads::Options o;
  o.max_roads = 5;
  w->net = roads::generate(s, o);
  w->net->activate();  // lengths are known from now on
  const std::size_t count = s.length(2, 5);
  for (std::size_t i = 0; i < count; ++i) {
    Participant p;
    p.name = "e" + std::to_string(i);
    p.kind = s.pick({std::string("vehicle"), std::string("vehicle"), std::string("pedestrian"), std::string("miscellaneous")});
    p.box.center.x = s.chance(40) ? s.uniform(-1.5, 1.5) : 0;
    p.box.center.y = s.chance(20) ? s.uniform(-0.3, 0.3) : 0;
    p.box.center.z = 0.75;
    p.box.dimensions.x = s.uniform(0.5, 5), p.box.dimensions.y = s.uniform(0.5, 2.2), p.box.dimensions.z = 1.5;
    p.added = !s.chance(12);
    Xml object("ScenarioObject", {{"name", p.name}});
    if (p.kind == "vehicle") {
      object.add(Xml("Vehicle", {{"name", ""}, {"vehicleCategory", "car"}}, {boundingBox(p.box), Xml("Performance", {{"maxSpeed", "70"}, {"maxAcceleration", "10"}, {"maxDeceleration", "10"}}),
        Xml("Axles", {}, {Xml("FrontAxle", {{"maxSteering", "0.5"}, {"wheelDiameter", "0.6"}, {"trackWidth", "1.6"}, {"positionX", "2"}, {"positionZ", "0.3"}}), Xml("RearAxle", {{"maxSteering", "0"}, {"wheelDiameter", "0.6"}, {"trackWidth", "1.6"}, {"positionX", "0"}, {"positionZ", "0.3"}})}),
        Xml("Properties")}));
    } else if (p.kind == "pedestrian") {
      object.add(Xml("Pedestrian", {{"name", ""}, {"mass", "70"}, {"model", ""}, {"pedestrianCategory", "pedestrian"}}, {boundingBox(p.box), Xml("Properties")}));
    } else {
      object.add(Xml("MiscObject", {{"name", ""}, {"mass", "70"}, {"miscObjectCategory", "obstacle"}}, {boundingBox(p.box), Xml("Properties")}));
    }
    w->parts.entities.add(object);
    if (p.added) {
      const auto at = anywhere(s, *w->net);
      w->parts.init.add(Xml("Private", {{"entityRef", p.name}}, {Xml("PrivateAction", {}, {Xml("TeleportAction", {}, {position(at)})})}));
    }
    w->all.push_back(p);
  }
  for (std::size_t i = s.length(2); i-- > 0;) {
    const std::string name = "g" + std::to_string(i);
    Xml members("Members");
    std::vector<int> inside;
    if (s.chance(60)) {
      for (std::size_t k = 0; k < w->all.size(); ++k)
        if (s.chance(50)) {
          inside.push_back(static_cast<int>(k));
          members.add(Xml("EntityRef", {{"entityRef", w->all[k].name}}));
        }
    }
    if (members.children.empty()) {
      inside.clear();
      const auto type = s.pick({std::string("vehicle"), std::string("pedestrian"), std::string("miscellaneous")});
      members.add(Xml("ByType", {{"objectType", type}}));
      for (std::size_t k = 0; k < w->all.size(); ++k)
        if (w->all[k].kind == type) inside.push_back(static_cast<int>(k));
    }
    w->parts.entities.add(Xml("EntitySelection", {{"name", name}}, {members}));
    w->selections[name] = inside;
  }
  return w;
}

}  // namespace cast
#endif
