// Traffic signals: controllers, actions, channels, published messages and predictions.
#include "vf.hpp"
#include "interp_pch.hpp"
#include <openscenario_interpreter/syntax/by_value_condition.hpp>
#include <openscenario_interpreter/syntax/global_action.hpp>
#include <openscenario_interpreter/syntax/user_defined_action.hpp>
#include "scenario.hpp"
#include "lanes.hpp"
#include <autoware_perception_msgs/msg/traffic_light_group_array.hpp>
#include <traffic_simulator_msgs/msg/traffic_light_array_v1.hpp>

namespace
{
using namespace scenario;
using lanelet::Id;
namespace ts = traffic_simulator;

// ---------------------------------------------------------------- bulbs
using Bulb = std::tuple<std::string, std::string, std::string>;  // colour, status, shape
using Bulbs = std::set<Bulb>;

std::string text(const Bulbs & b)
{
  std::string out;
  for (auto & [x, y, z] : b) out += (out.empty() ? "" : ", ") + x + " " + y + " " + z;
  return "{" + out + "}";
}

std::pair<std::string, Bulb> anyBulb(vf::Src & s, bool unknown = false)
{
  static const std::vector<std::pair<std::string, std::string>> colors{{"", "green"}, {"green", "green"}, {"red", "red"}, {"yellow", "yellow"}, {"white", "white"}, {"amber", "yellow"}, {"Green", "green"}, {"Red", "red"}, {"Yellow", "yellow"}, {"unknown", "unknown"}};
  static const std::vector<std::pair<std::string, std::string>> statuses{{"", "solidOn"}, {"solidOn", "solidOn"}, {"flashing", "flashing"}, {"solidOff", "solidOff"}, {"Blank", "solidOff"}, {"unknown", "unknown"}};
  static const std::vector<std::pair<std::string, std::string>> shapes{{"", "circle"}, {"circle", "circle"}, {"left", "left"}, {"right", "right"}, {"up", "up"}, {"straight", "up"}, {"down", "down"}, {"cross", "cross"}, {"lowerLeft", "lowerLeft"}, {"lowerRight", "lowerRight"}, {"upperLeft", "upperLeft"}, {"upperRight", "upperRight"}, {"unknown", "unknown"}};
  auto c = colors[s.index(colors.size() - (unknown ? 0 : 1))];
  auto t = statuses[s.chance(50) ? 0 : s.index(statuses.size() - (unknown ? 0 : 1))];
  auto h = shapes[s.chance(40) ? 0 : s.index(shapes.size() - (unknown ? 0 : 1))];
  if (c.first.empty() && (t.first == "unknown" || h.first == "unknown" || (t.first.empty() && h.first.empty()))) c = {"red", "red"};
  if (h.first == "unknown" && t.first.empty()) t = {"solidOn", "solidOn"};
  std::string out;
  for (auto & w : {c.first, t.first, h.first})
    if (!w.empty()) out += (out.empty() ? "" : " ") + w;
  return {out, {c.second, t.second, h.second}};
}

std::pair<std::string, Bulbs> anyState(vf::Src & s, bool unknown = false)
{
  std::pair<std::string, Bulbs> out;
  for (std::size_t i = s.length(1, s.chance(60) ? 1 : 4); i-- > 0;) {
    const auto [t, b] = anyBulb(s, unknown);
    out.first += (out.first.empty() ? "" : s.pick({", ", ","})) + t;
    out.second.insert(b);
  }
  return out;
}

// what the messages call these
template <typename T> std::string named(int value, const std::vector<std::pair<int, std::string>> & table)
{
  for (auto & [v, name] : table)
    if (v == value) return name;
  return "?" + std::to_string(value);
}

Bulb read(const simulation_api_schema::TrafficLight & b)
{
  using P = simulation_api_schema::TrafficLight;
  return {
    named<P>(b.color(), {{P::RED, "red"}, {P::AMBER, "yellow"}, {P::GREEN, "green"}, {P::WHITE, "white"}, {P::UNKNOWN_COLOR, "unknown"}}),
    named<P>(b.status(), {{P::SOLID_ON, "solidOn"}, {P::SOLID_OFF, "solidOff"}, {P::FLASHING, "flashing"}, {P::UNKNOWN_STATUS, "unknown"}}),
    named<P>(b.shape(), {{P::CIRCLE, "circle"}, {P::CROSS, "cross"}, {P::LEFT_ARROW, "left"}, {P::RIGHT_ARROW, "right"}, {P::UP_ARROW, "up"}, {P::DOWN_ARROW, "down"}, {P::DOWN_LEFT_ARROW, "lowerLeft"}, {P::DOWN_RIGHT_ARROW, "lowerRight"}, {P::UP_LEFT_ARROW, "upperLeft"}, {P::UP_RIGHT_ARROW, "upperRight"}, {P::UNKNOWN_SHAPE, "unknown"}})};
}

Bulb read(const autoware_perception_msgs::msg::TrafficLightElement & b)
{
  using E = autoware_perception_msgs::msg::TrafficLightElement;
  return {
    named<E>(b.color, {{E::RED, "red"}, {E::AMBER, "yellow"}, {E::GREEN, "green"}, {E::WHITE, "white"}, {E::UNKNOWN, "unknown"}}),
    named<E>(b.status, {{E::SOLID_ON, "solidOn"}, {E::SOLID_OFF, "solidOff"}, {E::FLASHING, "flashing"}, {E::UNKNOWN, "unknown"}}),
    named<E>(b.shape, {{E::CIRCLE, "circle"}, {E::CROSS, "cross"}, {E::LEFT_ARROW, "left"}, {E::RIGHT_ARROW, "right"}, {E::UP_ARROW, "up"}, {E::DOWN_ARROW, "down"}, {E::DOWN_LEFT_ARROW, "lowerLeft"}, {E::DOWN_RIGHT_ARROW, "lowerRight"}, {E::UP_LEFT_ARROW, "upperLeft"}, {E::UP_RIGHT_ARROW, "upperRight"}, {E::UNKNOWN, "unknown"}})};
}

Bulb read(const traffic_simulator_msgs::msg::TrafficLightBulbV1 & b)
{
  using E = traffic_simulator_msgs::msg::TrafficLightBulbV1;
  return {
    named<E>(b.color, {{E::RED, "red"}, {E::AMBER, "yellow"}, {E::GREEN, "green"}, {E::WHITE, "white"}, {E::UNKNOWN, "unknown"}}),
    named<E>(b.status, {{E::SOLID_ON, "solidOn"}, {E::SOLID_OFF, "solidOff"}, {E::FLASHING, "flashing"}, {E::UNKNOWN, "unknown"}}),
    named<E>(b.shape, {{E::CIRCLE, "circle"}, {E::CROSS, "cross"}, {E::LEFT_ARROW, "left"}, {E::RIGHT_ARROW, "right"}, {E::UP_ARROW, "up"}, {E::DOWN_ARROW, "down"}, {E::DOWN_LEFT_ARROW, "lowerLeft"}, {E::DOWN_RIGHT_ARROW, "lowerRight"}, {E::UP_LEFT_ARROW, "upperLeft"}, {E::UP_RIGHT_ARROW, "upperRight"}, {E::UNKNOWN, "unknown"}})};
}

// the ROS messages' conversion has no arrows to the upper left and right (simulation_interface's own tests say so)
Bulbs inMessages(const Bulbs & all)
{
  Bulbs out;
  for (auto & [x, y, z] : all) out.insert({x, y, z.substr(0, 5) == "upper" ? "unknown" : z});
  return out;
}

template <typename T> Bulbs readAll(const T & all)
{
  Bulbs out;
  for (auto & b : all) out.insert(read(b));
  return out;
}

// ---------------------------------------------------------------- the map
struct Lights
{
  std::vector<Id> ways;
  std::map<Id, std::vector<Id>> elements;  // element -> the ways it refers to
  std::map<Id, Id> stop_line_of;           // element -> stop line
  std::vector<Id> all;                     // ways and elements
  using Point = std::tuple<double, double, double>;
  std::map<Id, std::map<std::string, std::vector<Point>>> bulbs;  // where the bulbs of a way may be

  std::vector<Id> waysOf(Id id) const
  {
    if (auto i = elements.find(id); i != elements.end()) return i->second;
    return {id};
  }
  std::multiset<Id> elementsOf(Id way) const
  {
    std::multiset<Id> out;
    for (auto & [e, ws] : elements)
      if (std::count(ws.begin(), ws.end(), way)) out.insert(e);
    return out;
  }
};

Lights addLights(vf::Src & s, roads::Net & n, std::size_t most)
{
  Lights out;
  std::size_t hung = 0;  // every bulb at a height of its own
  const bool large = s.chance(30);  // ids travel as 32-bit numbers
  auto fresh = [&] { return n.fresh() + (large ? Id(1) << 30 : 0); };
  std::map<Id, lanelet::LineString3d> made;
  for (std::size_t i = s.length(1, most); i-- > 0;) {
    const double x = s.uniform(-50, 50) + 200 * static_cast<double>(i), y = s.uniform(-50, 50);  // never at the same place
    lanelet::LineString3d way(fresh(), {lanelet::Point3d(n.fresh(), x, y, 3), lanelet::Point3d(n.fresh(), x + 1, y, 3)});
    way.setAttribute("type", "traffic_light"), way.setAttribute("subtype", "red_yellow_green");
    if (s.chance(80)) way.setAttribute("height", "0.45");
    n.map->add(way);
    out.ways.push_back(way.id());
    made[way.id()] = way;
  }
  for (std::size_t i = s.length(1, 4); i-- > 0;) {
    auto e = std::make_shared<lanelet::autoware::AutowareTrafficLight>();
    e->id_ = fresh();
    e->attributes_["type"] = lanelet::Attribute("regulatory_element"), e->attributes_["subtype"] = lanelet::Attribute("traffic_light");
    std::vector<Id> refers;
    // towards the end the lights nothing refers to yet
    for (std::size_t k = s.length(1, 3); k-- > 0;) {
      Id way = s.pick(out.ways);
      if (!std::count(refers.begin(), refers.end(), way)) refers.push_back(way);
    }
    for (auto way : refers) {
      e->lines["refers"].push_back(made[way]);
      if (s.chance(80)) {
        std::vector<lanelet::Point3d> points;
        for (const auto & color : {"red", "yellow", "green"})
          if (s.chance(85)) {
            points.emplace_back(n.fresh(), s.uniform(-50, 50), s.uniform(-50, 50), 3.2 + static_cast<double>(++hung));
            points.back().setAttribute("color", color);
            out.bulbs[way][color].emplace_back(points.back().x(), points.back().y(), points.back().z());
          }
        if (!points.empty()) {
          lanelet::LineString3d bulbs(n.fresh(), points);
          bulbs.setAttribute("type", "light_bulbs"), bulbs.setAttribute("traffic_light_id", std::to_string(way));
          n.map->add(bulbs);
          e->lines["light_bulbs"].push_back(bulbs);
        }
      }
    }
    const auto on = s.pick(n.ids);
    n.map->laneletLayer.get(on).addRegulatoryElement(e);
    n.map->add(e);
    out.elements[e->id()] = refers;
  }
  for (auto & [way, line] : made) {
    if (!line.hasAttribute("height") || std::none_of(out.elements.begin(), out.elements.end(), [&, id = way](auto & e) { return std::count(e.second.begin(), e.second.end(), id); })) continue;
    for (auto & [color, share] : std::map<std::string, double>{{"red", 0.25}, {"yellow", 0.5}, {"green", 0.75}})
      if (auto & all = out.bulbs[way][color]; all.empty())
        all.emplace_back(line.front().x() * share + line.back().x() * (1 - share), line.front().y() * share + line.back().y() * (1 - share), line.front().z() + 0.45 / 2);
  }
  for (auto w : out.ways) out.all.push_back(w);
  for (auto & [e, ws] : out.elements) out.all.push_back(e);
  return out;
}

// ---------------------------------------------------------------- controllers
struct Signal
{
  Id id;
  bool v2i, detected;
  std::string given;
  Bulbs bulbs;
};

struct Phase
{
  std::string name;
  double duration;
  std::vector<Signal> signals;
};

struct Controller
{
  std::string name, reference;
  double delay = 0;
  std::vector<Phase> phases;
  bool regular = true;  // every phase is about the same signals
  // state
  int current = -1;
  double since = 0;
  std::optional<double> begin_at;
};

std::string signalId(vf::Src & s, const Signal & x)
{
  std::string out = std::to_string(x.id);
  if (x.v2i || x.detected || s.chance(30)) out += std::string(" ") + (x.v2i ? "v2i" : "conventional") + (x.detected ? "_detected" : "");
  return out;
}

struct World
{
  std::unique_ptr<roads::Net> net;
  Lights lights;
  Parts parts;
  std::vector<Controller> controllers;
  bool feature;  // V2I follows conventional where enabled; otherwise V2I states are given explicitly

  // ---- what is shown
  std::map<Id, Bulbs> conventional, v2i;
  std::map<Id, Bulbs> conventional_detected, v2i_detected;
  std::map<Id, double> confidence;
  std::set<Id> enabled;
  struct Prediction
  {
    long long at;
    Bulbs bulbs;
  };
  std::map<Id, std::vector<Prediction>> predictions;
  std::set<Id> unpredictable;

  void conv(Id way, const Bulbs * add, bool clear)
  {
    if (clear) conventional[way].clear();
    if (add) conventional[way].insert(add->begin(), add->end());
    if (enabled.count(way)) {
      if (clear) v2i[way].clear();
      if (add) v2i[way].insert(add->begin(), add->end());
    }
  }
  void apply(const Signal & x, bool clear)
  {
    for (auto way : lights.waysOf(x.id)) {
      if (x.detected) {
        auto & map = x.v2i ? v2i_detected : conventional_detected;
        if (clear) map.erase(way);
        else map[way].insert(x.bulbs.begin(), x.bulbs.end());
      } else if (x.v2i) {
        if (clear) v2i[way].clear();
        else v2i[way].insert(x.bulbs.begin(), x.bulbs.end());
      } else {
        conv(way, clear ? nullptr : &x.bulbs, clear);
      }
    }
  }
  void change(Controller & c, int phase, double now)
  {
    if (phase == 0)
      for (auto & o : controllers)
        if (o.reference == c.name) o.begin_at = now + o.delay;
    if (c.current >= 0)
      for (auto & x : c.phases[static_cast<std::size_t>(c.current)].signals) apply(x, true);
    c.current = phase, c.since = now;
    const auto & p = c.phases[static_cast<std::size_t>(phase)];
    predict(c);
    for (auto & x : p.signals) apply(x, true);
    for (auto & x : p.signals) apply(x, false);
  }
  void predict(Controller & c)
  {
    for (auto & p : c.phases)
      for (auto & x : p.signals)
        for (auto way : lights.waysOf(x.id)) {
          predictions.erase(way);
          if (!c.regular) unpredictable.insert(way);
        }
    double ahead = c.phases[static_cast<std::size_t>(c.current)].duration;
    for (std::size_t k = 1; k <= 6; ++k) {
      const auto & p = c.phases[(static_cast<std::size_t>(c.current) + k) % c.phases.size()];
      if (std::isinf(ahead) || std::isinf(p.duration)) break;
      std::map<Id, Bulbs> shown, detected;
      for (auto & x : p.signals)
        for (auto way : lights.waysOf(x.id)) {
          if (x.detected && x.v2i) detected[way].insert(x.bulbs.begin(), x.bulbs.end());
          else if (!x.detected && (x.v2i || enabled.count(way))) shown[way].insert(x.bulbs.begin(), x.bulbs.end());
        }
      for (auto & [way, bulbs] : detected) shown[way] = bulbs;
      for (auto & [way, bulbs] : shown) predictions[way].push_back({shim::now_ns() + static_cast<long long>(std::llround(ahead * 1e9)), bulbs});
      ahead += p.duration;
    }
  }
  void tick(double now)
  {
    for (auto & c : controllers) {
      if (c.phases.empty()) continue;
      bool begin = false;
      if (c.reference.empty()) begin = c.current < 0;
      else if (c.begin_at && *c.begin_at < now) begin = true, c.begin_at.reset();
      if (begin) change(c, 0, now);
      else if (c.current >= 0 && c.phases[static_cast<std::size_t>(c.current)].duration <= now - c.since) change(c, (c.current + 1) % static_cast<int>(c.phases.size()), now);
    }
  }
};

double odd(std::size_t k) { return (static_cast<double>(k) + 0.5) / 30; }  // never a whole number of frames

std::unique_ptr<World> generate(vf::Src & s)
{
  auto w = std::make_unique<World>();
  roads::Options o;
  o.max_roads = 3, o.max_lanes = 2;
  w->net = roads::generate(s, o);
  w->lights = addLights(s, *w->net, 5);
  w->feature = s.boolean();
  // controllers are about different lights
  auto left = w->lights.ways;
  s.shuffle(left);
  for (std::size_t i = s.length(0, 3), n = i; i > 0 && !left.empty(); --i) {
    Controller c;
    c.name = "c" + std::to_string(n - i);
    std::vector<Id> mine;
    for (std::size_t k = s.length(1, 3); k > 0 && !left.empty(); --k) mine.push_back(left.back()), left.pop_back();
    std::vector<Id> ids = mine;
    for (auto & [e, ws] : w->lights.elements)
      if (std::all_of(ws.begin(), ws.end(), [&](Id x) { return std::count(mine.begin(), mine.end(), x) > 0; })) ids.push_back(e);
    struct Unit
    {
      Id id;
      bool v2i, detected;
    };
    std::vector<Unit> units;
    for (std::size_t k = s.length(1, 4); k-- > 0;) units.push_back({s.pick(ids), !w->feature && s.chance(50), s.chance(25)});
    c.regular = s.chance(75);
    const auto same = !w->controllers.empty() && s.chance(40) ? &s.pick(w->controllers) : nullptr;
    const bool late = same && s.chance(70);
    std::vector<double> durations;
    if (late) {
      for (auto & p : same->phases) durations.push_back(p.duration);
      s.shuffle(durations);
      if (durations.size() > 1 && std::isfinite(durations[0]) && std::isfinite(durations[1]) && s.boolean()) {
        const double moved = std::floor(s.uniform(0, 1) * (durations[0] * 30 - 0.5)) / 30;
        durations[0] -= moved, durations[1] += moved;
      }
      c.reference = same->name, c.delay = s.chance(20) ? 0 : odd(s.index(25));
    } else {
      for (std::size_t k = s.length(1, 4); k-- > 0;) durations.push_back(s.chance(8) ? std::numeric_limits<double>::infinity() : odd(s.chance(40) ? 1 + s.index(60) : 1 + s.index(15)));
    }
    for (std::size_t k = 0; k < durations.size(); ++k) {
      Phase p{"p" + std::to_string(k), durations[k], {}};
      for (auto & u : units) {
        if (!c.regular && s.chance(40)) continue;
        Signal x{u.id, u.v2i, u.detected, "", {}};
        std::tie(x.given, x.bulbs) = anyState(s, x.detected);
        p.signals.push_back(x);
      }
      c.phases.push_back(p);
    }
    w->controllers.push_back(c);
  }
  if (s.chance(50)) s.shuffle(w->controllers);
  for (auto & c : w->controllers) {
    Xml x("TrafficSignalController", {{"name", c.name}});
    if (!c.reference.empty()) x.with("delay", num(c.delay)), x.with("reference", c.reference);
    for (auto & p : c.phases) {
      Xml y("Phase", {{"name", p.name}});
      if (std::isfinite(p.duration) || s.boolean()) y.with("duration", std::isfinite(p.duration) ? num(p.duration) : "INF");
      for (auto & z : p.signals) y.add(Xml("TrafficSignalState", {{"trafficSignalId", signalId(s, z)}, {"state", z.given}}));
      x.add(y);
    }
    w->parts.signals.add(x);
  }
  w->net->activate();
  return w;
}

std::string described(const World & w)
{
  std::ostringstream o;
  o << w.net->text << "\nlights";
  for (auto x : w.lights.ways) o << " " << x;
  for (auto & [e, ws] : w.lights.elements) {
    o << "; element " << e << ":";
    for (auto x : ws) o << " " << x;
  }
  o << (w.feature ? "; V2I follows\n" : "\n");
  return o.str();
}

struct Made
{
  Xml xml;
  std::shared_ptr<pugi::xml_document> document = std::make_shared<pugi::xml_document>();
  explicit Made(const Xml & x) : xml(x) { document->load_string(x.str().c_str()); }
};

template <typename T> void start(Run & run, const Xml & xml)
{
  Made m(xml);
  T action(m.document->document_element(), *run.script);
  action.start();
}

// Both channels draw the lights they know: each bulb where it is, bright exactly if a round bulb of its colour is lit.
void markers(vf::Case & c, World & w, std::size_t frame)
{
  using Markers = visualization_msgs::msg::MarkerArray;
  auto & history = shim::topics<Markers>()["traffic_light/marker"].history;
  std::vector<std::shared_ptr<const Markers>> drawn;
  std::size_t deleted = 0;
  for (auto & m : history)
    if (m->markers.size() == 1 && m->markers[0].action == visualization_msgs::msg::Marker::DELETEALL) ++deleted;
    else drawn.push_back(m);
  c.require(drawn.size() == 2 && deleted == 2, "frame ", frame, ": ", drawn.size(), " messages with markers, ", deleted, " that delete them");
  // what a message shows, or why it does not show these lights
  auto shows = [&](const Markers & message, std::map<Id, Bulbs> & shown) -> std::string {
    std::vector<bool> used(message.markers.size());
    for (auto way : w.lights.ways) {
      std::size_t markers = 0, expected = 0;
      std::string why;
      for (const auto & color : {"red", "yellow", "green"}) {
        const auto & places = w.lights.bulbs[way][color];
        if (places.empty()) continue;
        ++expected;
        const bool lit = std::any_of(shown[way].begin(), shown[way].end(), [&](auto & b) { return std::get<0>(b) == color && std::get<2>(b) == "circle"; });
        bool there = false;
        for (std::size_t i = 0; i < message.markers.size(); ++i) {
          const auto & m = message.markers[i];
          const std::string is = m.color.r > m.color.g + 0.3f ? "red" : m.color.g > m.color.r + 0.3f ? "green" : "yellow";
          if (is != color || m.action != visualization_msgs::msg::Marker::ADD || m.header.frame_id != "map") continue;
          if (std::none_of(places.begin(), places.end(), [&](auto & p) { return std::abs(std::get<0>(p) - m.pose.position.x) + std::abs(std::get<1>(p) - m.pose.position.y) + std::abs(std::get<2>(p) - m.pose.position.z) < 1e-6; })) continue;
          used[i] = there = true;
          if ((m.color.a > 0.9) != lit) why = std::string("the ") + color + " bulb of " + std::to_string(way) + " is " + (lit ? "dark" : "lit");
        }
        markers += there;
      }
      if (!why.empty()) return why;
      if (markers != expected && (markers || !shown[way].empty())) return "bulbs of " + std::to_string(way) + " are missing";
    }
    if (std::count(used.begin(), used.end(), false)) return "there are markers where no bulbs are";
    return "";
  };
  const auto a = shows(*drawn[0], w.conventional), b = shows(*drawn[1], w.v2i), x = shows(*drawn[1], w.conventional), y = shows(*drawn[0], w.v2i);
  c.require((a.empty() && b.empty()) || (x.empty() && y.empty()), "frame ", frame, ": markers of the lights are wrong: ", a, "; ", b, " (or ", x, "; ", y, ")");
}

Xml signalAction(const Xml & x) { return Xml("GlobalAction", {}, {Xml("InfrastructureAction", {}, {Xml("TrafficSignalAction", {}, {x})})}); }
Xml command(const std::string & x) { return Xml("UserDefinedAction", {}, {Xml("CustomCommandAction", {{"type", x}})}); }
}  // namespace

VF_PROP("signals", 4000, 600000)
{
  shim::now_ns() = 1000000000;
  auto w = generate(s);
  const auto source = w->parts.document().str();
  c.log << described(*w) << source;
  Run run(source, *w->net);
  run.activate();
  auto & lights = w->lights;
  std::size_t changes = 0, actions = 0, predicted = 0;
  const std::size_t frames = s.length(5, 90);
  std::vector<std::pair<Made, std::shared_ptr<osc::ByValueCondition>>> conditions;
  struct Asked
  {
    Id id;
    std::string state;
    std::optional<Bulb> bulb;
    std::string controller, phase;
  };
  std::vector<Asked> asked;
  for (std::size_t i = s.length(0, 4); i-- > 0;) {
    Asked a{0, "", {}, "", ""};
    if (w->controllers.empty() || s.boolean()) {
      a.id = s.pick(lights.all);
      if (s.chance(20)) a.state = "none";
      else {
        const auto [t, b] = anyBulb(s);
        a.state = t, a.bulb = b;
      }
      conditions.push_back({Made(Xml("ByValueCondition", {}, {Xml("TrafficSignalCondition", {{"name", std::to_string(a.id)}, {"state", a.state}})})), nullptr});
    } else {
      const auto & k = s.pick(w->controllers);
      a.controller = k.name, a.phase = "p" + std::to_string(s.index(k.phases.size() + 1));
      conditions.push_back({Made(Xml("ByValueCondition", {}, {Xml("TrafficSignalControllerCondition", {{"trafficSignalControllerRef", a.controller}, {"phase", a.phase}})})), nullptr});
    }
    conditions.back().second = std::make_shared<osc::ByValueCondition>(conditions.back().first.document->document_element(), *run.script);
    asked.push_back(a);
    c.log << conditions.back().first.xml.str();
  }
  run.frame();  // starts the controllers of traffic participants
  for (std::size_t frame = 0; frame < frames; ++frame) {
    shim::now_ns() += 33333333;
    const double now = run.time();
    // ---- actions
    if (frame > 0 && s.chance(15)) {
      ++actions;
      const auto kind = s.index(6);
      if (kind == 0 || (kind == 1 && w->controllers.empty())) {
        Signal x{s.pick(lights.all), false, false, "", {}};
        std::tie(x.given, x.bulbs) = anyState(s);
        c.log << frame << ": " << x.id << " shows " << x.given << "\n";
        const Xml action("TrafficSignalStateAction", {{"name", std::to_string(x.id)}, {"state", x.given}});
        start<osc::GlobalAction>(run, signalAction(action));
        for (auto way : lights.waysOf(x.id)) w->conv(way, &x.bulbs, true);
      } else if (kind == 1) {
        auto & k = w->controllers[s.index(w->controllers.size())];
        const auto p = s.index(k.phases.size());
        c.log << frame << ": " << k.name << " changes to p" << p << "\n";
        start<osc::GlobalAction>(run, signalAction(Xml("TrafficSignalControllerAction", {{"trafficSignalControllerRef", k.name}, {"phase", "p" + std::to_string(p)}})));
        w->change(k, static_cast<int>(p), now);
      } else if (kind == 2) {
        const Id id = s.pick(lights.all);
        const double confidence = s.uniform(0, 1);
        c.log << frame << ": confidence of " << id << " is " << confidence << "\n";
        start<osc::UserDefinedAction>(run, command("PseudoTrafficSignalDetectorConfidenceSetAction@v1(" + std::to_string(id) + ", " + num(confidence) + ")"));
        for (auto way : lights.waysOf(id)) w->confidence[way] = static_cast<double>(static_cast<float>(confidence));
      } else if (!w->feature) {
        Signal x{s.pick(lights.all), true, false, "", {}};
        std::tie(x.given, x.bulbs) = anyState(s);
        const bool rate = s.chance(30);
        const double hz = s.pick({5.0, 12.5, 20.0});
        c.log << frame << ": V2I " << x.id << " shows " << x.given << "\n";
        start<osc::UserDefinedAction>(run, command("V2ITrafficSignalStateAction(" + std::to_string(x.id) + ", \"" + x.given + "\"" + (rate ? ", " + num(hz) : "") + ")"));
        w->apply(x, true), w->apply(x, false);
      } else {
        const bool on = s.chance(70);
        std::vector<Id> ids;
        std::string list;
        for (std::size_t k = s.length(1, 3); k-- > 0;) ids.push_back(s.pick(lights.all)), list += (list.empty() ? "" : ", ") + std::to_string(ids.back());
        c.log << frame << ": " << (on ? "enable " : "disable ") << list << "\n";
        start<osc::UserDefinedAction>(run, command(std::string(on ? "Enable" : "Disable") + "TrafficSignalV2IFeatureAction@v1(" + list + ")"));
        for (auto id : ids)
          for (auto way : lights.waysOf(id)) on ? void(w->enabled.insert(way)) : void(w->enabled.erase(way));
      }
    }
    // ---- a frame
    std::vector<int> before;
    for (auto & k : w->controllers) before.push_back(k.current);
    w->tick(now);
    for (std::size_t k = 0; k < before.size(); ++k) changes += before[k] >= 0 && before[k] != w->controllers[k].current;
    remote::requests().clear();
    run.frame();
    // ---- what the sensors are told
    std::size_t told = 0;
    for (auto & r : remote::requests()) {
      if (!r.has_update_traffic_lights()) continue;
      ++told;
      std::set<Id> seen;
      for (auto & x : r.update_traffic_lights().states()) {
        c.require(std::count(lights.ways.begin(), lights.ways.end(), x.id()), "there is no light ", x.id());
        c.require(seen.insert(x.id()).second, "frame ", frame, ": the light ", x.id(), " is there twice");
        const bool detected = w->conventional_detected.count(x.id());
        const auto & want = detected ? w->conventional_detected[x.id()] : w->conventional[x.id()];
        c.require(readAll(x.traffic_light_status()) == want, "frame ", frame, ": the sensors are told that ", x.id(), " shows ", text(readAll(x.traffic_light_status())), " instead of ", text(want));
        c.require(std::multiset<Id>(x.relation_ids().begin(), x.relation_ids().end()) == lights.elementsOf(x.id()), "wrong relations of the light ", x.id());
        for (auto & b : x.traffic_light_status())
          if (!detected) c.require(std::abs(b.confidence() - (w->confidence.count(x.id()) ? w->confidence[x.id()] : 1)) < 1e-6, "frame ", frame, ": confidence of ", x.id(), " is ", b.confidence());
      }
      for (auto way : lights.ways) {
        const auto & want = w->conventional_detected.count(way) ? w->conventional_detected[way] : w->conventional[way];
        if (!want.empty()) c.require(seen.count(way), "frame ", frame, ": the light ", way, " is missing");
      }
    }
    c.require(told == 1, "frame ", frame, ": the sensors are told about traffic lights ", told, " times");
    // ---- what is published
    if (s.chance(30)) {
      shim::fire_timers();
      auto & v1 = shim::topics<traffic_simulator_msgs::msg::TrafficLightArrayV1>()["/simulation/traffic_lights"];
      c.require(!v1.history.empty(), "nothing on /simulation/traffic_lights");
      std::set<Id> seen;
      for (auto & x : v1.history.back()->traffic_lights) {
        c.require(seen.insert(x.lanelet_way_id).second, "frame ", frame, ": /simulation/traffic_lights has ", x.lanelet_way_id, " twice");
        c.require(readAll(x.traffic_light_bulbs) == inMessages(w->conventional[x.lanelet_way_id]), "frame ", frame, ": /simulation/traffic_lights has ", x.lanelet_way_id, " show ", text(readAll(x.traffic_light_bulbs)), " instead of ", text(w->conventional[x.lanelet_way_id]));
      }
      for (auto way : lights.ways)
        if (!w->conventional[way].empty()) c.require(seen.count(way), "frame ", frame, ": /simulation/traffic_lights does not have ", way);
      markers(c, *w, frame);
      for (const auto & topic : {"/v2x/traffic_signals", "/perception/traffic_light_recognition/external/traffic_signals"}) {
        auto & t = shim::topics<autoware_perception_msgs::msg::TrafficLightGroupArray>()[topic];
        c.require(!t.history.empty(), "nothing on ", topic);
        const auto & message = *t.history.back();
        c.require(rclcpp::Time(message.stamp).nanoseconds() == shim::now_ns(), "frame ", frame, ": wrong time stamp on ", topic);
        std::multiset<std::pair<Id, Bulbs>> got, want;
        for (auto & g : message.traffic_light_groups) got.insert({g.traffic_light_group_id, readAll(g.elements)});
        std::map<std::pair<Id, Bulbs>, std::vector<Id>> of;
        for (auto way : lights.ways) {
          const auto shown = inMessages(w->v2i_detected.count(way) ? w->v2i_detected[way] : w->v2i[way]);
          if (!shown.empty())
            for (auto e : lights.elementsOf(way)) want.insert({e, shown}), of[{e, shown}].push_back(way);
        }
        auto list = [](auto & all) {
          std::string out;
          for (auto & [e, b] : all) out += " " + std::to_string(e) + " " + text(b);
          return out;
        };
        c.require(got == want, "frame ", frame, ": ", topic, " has", list(got), "\ninstead of", list(want));
        for (auto & g : message.traffic_light_groups) {
          const auto & ways = of.at({g.traffic_light_group_id, readAll(g.elements)});
          if (std::any_of(ways.begin(), ways.end(), [&](Id x) { return w->unpredictable.count(x); })) continue;
          std::string why;
          bool right = false;
          for (auto way : ways) {
            const auto & p = w->predictions[way];
            bool same = p.size() == g.predictions.size();
            for (std::size_t i = 0; same && i < p.size(); ++i) same = std::abs(rclcpp::Time(g.predictions[i].predicted_stamp).nanoseconds() - p[i].at) < 2000 && readAll(g.predictions[i].simultaneous_elements) == inMessages(p[i].bulbs);
            if (!p.empty() && same) ++predicted;
            right = right || same;
            why += "\nfor the light " + std::to_string(way) + ":";
            for (auto & q : p) why += " " + std::to_string(static_cast<double>(q.at - shim::now_ns()) / 1e9) + " " + text(q.bulbs);
          }
          std::string is;
          for (auto & q : g.predictions) is += " " + std::to_string(static_cast<double>(rclcpp::Time(q.predicted_stamp).nanoseconds() - shim::now_ns()) / 1e9) + " " + text(readAll(q.simultaneous_elements));
          c.require(right, "frame ", frame, ": predictions for the group ", g.traffic_light_group_id, " are", is, "\nexpected", why);
        }
      }
    }
    // ---- conditions
    for (std::size_t k = 0; k < asked.size(); ++k) {
      const auto & a = asked[k];
      bool want;
      if (a.controller.empty()) {
        const auto ways = lights.waysOf(a.id);
        want = std::all_of(ways.begin(), ways.end(), [&](Id way) { return a.bulb ? w->conventional[way].count(*a.bulb) > 0 : w->conventional[way].empty(); });
      } else {
        const auto i = std::find_if(w->controllers.begin(), w->controllers.end(), [&](auto & x) { return x.name == a.controller; });
        want = i->current >= 0 && i->phases[static_cast<std::size_t>(i->current)].name == a.phase;
      }
      const bool is = conditions[k].second->evaluate().as<osc::Boolean>();
      c.label(std::string(a.controller.empty() ? "light" : "controller") + (want ? " condition holds" : " condition does not hold"));
      c.require(is == want, "frame ", frame, ": ", conditions[k].second->description(), " is ", is, "\n", conditions[k].first.xml.str());
    }
  }
  if (changes) c.label("phases change");
  if (predicted) c.label("predicted");
  if (actions) c.label("actions");
  if (changes && actions) c.nontrivial();
}

// ---------------------------------------------------------------- what is refused
namespace
{
bool accepted(const std::vector<Xml> & controllers, roads::Net & net, std::string & why)
{
  scenario::Parts parts;
  for (auto & x : controllers) parts.signals.add(x);
  try {
    Run run(parts, net);
    return true;
  } catch (const vf::Failure &) {
    throw;
  } catch (const common::Error & e) {
    why = e.what();
    return false;
  }
}
}  // namespace

VF_PROP("cycles", 400, 12000)
{
  roads::Options o;
  o.max_roads = 1, o.crosswalks = false;
  auto net = roads::generate(s, o);
  net->activate();
  // two to four controllers; those that refer to another one must take as long for a cycle
  struct C
  {
    std::vector<std::string> durations;
    std::string delay, reference;
    long double cycle = 0;
  };
  std::vector<C> all(s.length(1, 4));
  bool good = true, doubt = false;
  std::vector<std::string> reasons;
  for (std::size_t i = 0; i < all.size(); ++i) {
    auto & k = all[i];
    if (i > 0 && s.chance(60)) {
      // the same durations in another order, perhaps split or changed
      k.durations = all[s.index(i)].durations;
      s.shuffle(k.durations);
      if (s.chance(30) && !k.durations.empty()) k.durations[s.index(k.durations.size())] = num(s.pick({0.5, 1.25, 0.001, 3.0}));
    } else {
      for (std::size_t j = s.length(0, 6); j-- > 0;) k.durations.push_back(s.pick<std::string>({"1", "2.5", "0.1", "0.2", "0.3", "0.7", "10", "33.3", "0.05", "1e1"}));
    }
    for (auto & d : k.durations) k.cycle += std::stold(d);
    if (s.chance(10)) {
      const auto kind = s.index(4);
      if (kind == 0) k.delay = "-0.5", k.reference = "c0", reasons.push_back("negative delay");
      if (kind == 1) k.delay = "2", reasons.push_back("delay without reference");
      if (kind == 2) k.reference = "c0", reasons.push_back("reference without delay");
      if (kind == 3) k.delay = "1", k.reference = "nobody", reasons.push_back("unknown reference");
    } else if (s.chance(60)) {
      k.delay = s.pick<std::string>({"0", "0.5", "3"}), k.reference = "c" + std::to_string(s.index(all.size()));
    }
  }
  for (auto & k : all) {
    if (k.reference.empty() || k.reference == "nobody") continue;
    auto & r = all[k.reference[1] - '0'];
    const long double difference = std::abs(k.cycle - r.cycle);
    if (difference > 2e-6L) reasons.push_back("different cycles");
    else if (difference > 1e-9L) doubt = true;
  }
  good = reasons.empty();
  std::vector<Xml> xml;
  for (std::size_t i = 0; i < all.size(); ++i) {
    Xml x("TrafficSignalController", {{"name", "c" + std::to_string(i)}});
    if (!all[i].delay.empty()) x.with("delay", all[i].delay);
    if (!all[i].reference.empty()) x.with("reference", all[i].reference);
    for (std::size_t j = 0; j < all[i].durations.size(); ++j) x.add(Xml("Phase", {{"name", "p" + std::to_string(j)}, {"duration", all[i].durations[j]}}));
    c.log << x.str();
    xml.push_back(x);
  }
  std::string why;
  const bool is = accepted(xml, *net, why);
  if (doubt && good) return;
  c.require(is == good, is ? "accepted in spite of: " + (reasons.empty() ? std::string() : reasons[0]) : "refused: " + why);
  if (is) {
    bool referring = false;
    for (auto & k : all) referring |= !k.reference.empty() && k.durations.size() > 1;
    if (referring) c.nontrivial(), c.label("equal cycles");
  } else {
    c.nontrivial();
    for (auto & r : reasons) c.label(r);
  }
}
