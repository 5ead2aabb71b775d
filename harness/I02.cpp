// Conditions on entities: what is measured, between whom, in which frame, and how rules combine the results.
#include "vf.hpp"
#include "interp_pch.hpp"
#include <openscenario_interpreter/syntax/by_entity_condition.hpp>
#include "scenario.hpp"
#include <geometry/intersection/collision.hpp>
#include "cast.hpp"
using namespace cast;

namespace
{
constexpr double nan = cast::nan, inf = cast::inf;
double flat(V v) { return std::hypot(v.x, v.y); }  // heights do not count (consider_pose_by_road_slope is off)

struct Value
{
  double x = nan;
  bool sure = true;   // whether the oracle commits to it
  bool exact = false; // and to its last bit
};
const std::vector<std::string> rules = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};
/// whether a value fulfils a rule; nothing if too close to call
std::optional<bool> holds(const Value & v, const std::string & rule, double limit)
{
  if (!v.sure) return {};
  if (std::isnan(v.x)) return rule == "notEqualTo";
  const bool near = v.exact ? (v.x != limit && std::abs(v.x - limit) < 1e-12) : std::abs(v.x - limit) < 1e-6 * (1 + std::abs(limit));
  if (near && !(std::isinf(v.x))) return {};
  if (rule == "equalTo") return v.x == limit && !std::isinf(v.x);
  if (rule == "greaterThan") return v.x > limit;
  if (rule == "lessThan") return v.x < limit;
  if (rule == "greaterOrEqual") return v.x >= limit;
  if (rule == "lessOrEqual") return v.x <= limit;
  return v.x != limit;
}
std::optional<bool> both(std::optional<bool> a, std::optional<bool> b)
{
  if ((a && !*a) || (b && !*b)) return false;
  if (!a || !b) return {};
  return true;
}
std::optional<bool> negate(std::optional<bool> a)
{
  if (a) return !*a;
  return {};
}
std::optional<bool> either(std::optional<bool> a, std::optional<bool> b) { return negate(both(negate(a), negate(b))); }

struct Condition
{
  Xml xml{""};
  std::string rule, triggering_rule, kind;
  double limit = 0;
  std::vector<std::string> triggering;
  std::function<Value(World &, int)> measure;               // of one triggering object
  std::function<std::optional<bool>(World &, int)> decide;  // or the whole predicate for one object
  std::function<std::optional<bool>(World &, const std::vector<int> &)> whole;
  std::shared_ptr<osc::ByEntityCondition> made;
  std::shared_ptr<pugi::xml_document> document;
};
V heading(const Participant & p) { return rotate(p.pose.orientation, {1, 0, 0}) * p.speed.x; }
V relativeSpeed(const Participant & observer, const Participant & observed) { return rotate(observer.pose.orientation, heading(observed) - heading(observer), true); }
double pick(V v, const std::string & direction)
{
  return direction == "longitudinal" ? v.x : direction == "lateral" ? v.y : direction == "vertical" ? v.z : magnitude(v);
}
struct Way
{
  bool lane = false, shortest = false, freespace = false;
  std::string type;
};
Way anyWay(vf::Src & s)
{
  Way way;
  way.lane = s.chance(50);
  way.freespace = s.boolean();
  way.type = way.lane ? s.pick({std::string("longitudinal"), std::string("lateral")}) : s.pick({std::string("longitudinal"), std::string("lateral"), std::string("euclidianDistance")});
  way.shortest = way.lane && s.boolean();
  return way;
}
/// distance of an entity from another one or from a position
Value distance(const Participant & from, const Pose & to, const traffic_simulator_msgs::msg::BoundingBox & box, const std::optional<CanonicalizedLaneletPose> & lane, const Way & way, bool unsigned_)
{
  Value r;
  if (way.lane) {
    RoutingConfiguration how;
    how.allow_lane_change = way.shortest;
    if (!from.lane || !lane) return r;
    const auto p = way.freespace ? ts::pose::boundingBoxRelativeLaneletPose(*from.lane, from.box, *lane, box, how) : ts::pose::relativeLaneletPose(*from.lane, *lane, how);
    r.x = way.type == "longitudinal" ? p.s : p.offset;
    if (way.shortest) r.x = std::abs(r.x);
    return r;
  }
  V v{nan, nan, nan};
  if (!way.freespace) v = relative(from.pose, to);
  else if (const auto p = ts::pose::boundingBoxRelativePose(from.pose, from.box, to, box)) v = at(p->position);
  r.x = way.type == "euclidianDistance" ? flat(v) : pick(v, way.type);
  if (unsigned_) r.x = std::abs(r.x);
  return r;
}
struct Target
{
  Xml xml{""};
  Pose pose;
  std::optional<CanonicalizedLaneletPose> lane;
  int relative_to = -1;
  V offset{0, 0, 0};
  Pose now(const World & w) const
  {
    if (relative_to < 0) return pose;
    const auto & p = w.all[static_cast<std::size_t>(relative_to)];
    Pose r;
    if (!p.added) {
      r.position.x = r.position.y = r.position.z = nan;
      return r;
    }
    const V v = at(p.pose.position) + rotate(p.pose.orientation, offset);
    r.position.x = v.x, r.position.y = v.y, r.position.z = v.z;
    return r;
  }
};
Target anyTarget(vf::Src & s, World & w, bool on_lane)
{
  Target t;
  switch (on_lane ? 0 : s.index(3)) {
    case 0: {
      const auto p = anywhere(s, *w.net);
      t.lane = CanonicalizedLaneletPose(p);
      t.pose = ts::pose::toMapPose(*t.lane);
      t.xml = position(p);
      break;
    }
    case 1: {
      t.pose = ts::pose::toMapPose(CanonicalizedLaneletPose(anywhere(s, *w.net)));
      t.pose.position.x += s.uniform(-5, 5), t.pose.position.y += s.uniform(-5, 5);
      const double h = s.uniform(-3, 3);
      t.pose.orientation = {};
      t.pose.orientation.z = std::sin(h / 2), t.pose.orientation.w = std::cos(h / 2);
      t.xml = Xml("Position", {}, {Xml("WorldPosition", {{"x", num(t.pose.position.x)}, {"y", num(t.pose.position.y)}, {"z", num(t.pose.position.z)}, {"h", num(h)}})});
      break;
    }
    default: {
      t.relative_to = static_cast<int>(s.index(w.all.size()));
      if (!w.all[static_cast<std::size_t>(t.relative_to)].added) t.relative_to = 0;
      if (!w.all[0].added) return anyTarget(s, w, true);
      t.offset = {s.uniform(-20, 20), s.uniform(-5, 5), s.uniform(-1, 1)};
      t.xml = Xml("Position", {}, {Xml("RelativeObjectPosition", {{"entityRef", w.all[static_cast<std::size_t>(t.relative_to)].name}, {"dx", num(t.offset.x)}, {"dy", num(t.offset.y)}, {"dz", num(t.offset.z)}},
        {Xml("Orientation", {{"type", "relative"}, {"h", "0"}, {"p", "0"}, {"r", "0"}})})});
    }
  }
  return t;
}
double & limitNear(vf::Src & s, double & limit, double scale) { return limit = s.chance(30) ? std::round(s.uniform(-1, 1) * scale) : s.uniform(-1, 1) * scale; }

Condition anyCondition(vf::Src & s, World & w)
{
  Condition c;
  const auto one = [&](bool added) {
    std::vector<std::string> names;
    for (auto & p : w.all)
      if (!added || p.added) names.push_back(p.name);
    return names.empty() ? std::string() : s.pick(names);
  };
  c.rule = rules[s.index(6)];
  c.triggering_rule = s.pick({std::string("any"), std::string("all")});
  bool groups = true, all_added = false;
  const auto direction = s.pick({std::string(""), std::string("longitudinal"), std::string("lateral"), std::string("vertical")});
  switch (s.index(11)) {
    case 0:
      c.kind = "SpeedCondition";
      c.xml = Xml(c.kind, {{"rule", c.rule}, {"value", num(limitNear(s, c.limit, 5))}});
      if (!direction.empty()) c.xml.with("direction", direction);
      c.measure = [direction](World & w, int i) {
        const auto & p = w.all[static_cast<std::size_t>(i)];
        return Value{!p.added ? nan : direction.empty() ? p.speed.x : pick(p.speed, direction), true, true};  // without a direction: legacy
      };
      break;
    case 1:
      c.kind = "AccelerationCondition";
      all_added = true;
      c.xml = Xml(c.kind, {{"rule", c.rule}, {"value", num(limitNear(s, c.limit, 4))}});
      c.measure = [](World & w, int i) { return Value{w.all[static_cast<std::size_t>(i)].acceleration, true, true}; };
      break;
    case 2:
      c.kind = "StandStillCondition";
      all_added = true;
      c.rule = "greaterThan";
      c.limit = s.uniform(0, 0.4);
      c.xml = Xml(c.kind, {{"duration", num(c.limit)}});
      c.measure = [](World & w, int i) { return Value{w.all[static_cast<std::size_t>(i)].still}; };
      break;
    case 3: {
      c.kind = "RelativeSpeedCondition";
      const auto other = one(false);
      c.xml = Xml(c.kind, {{"entityRef", other}, {"rule", c.rule}, {"value", num(limitNear(s, c.limit, 5))}});
      if (!direction.empty()) c.xml.with("direction", direction);
      c.measure = [direction, other](World & w, int i) {
        const auto &p = w.all[static_cast<std::size_t>(i)], &o = w.all[static_cast<std::size_t>(w.members(other)[0])];
        if (!p.added || !o.added) return Value{};
        return Value{pick(relativeSpeed(o, p), direction)};
      };
      break;
    }
    case 4: {
      c.kind = "ReachPositionCondition";
      c.rule = "lessThan";
      const auto t = anyTarget(s, w, false);
      c.limit = s.uniform(0, 30);
      c.xml = Xml(c.kind, {{"tolerance", num(c.limit)}}, {t.xml});
      c.measure = [t](World & w, int i) {
        const auto & p = w.all[static_cast<std::size_t>(i)];
        return p.added ? Value{flat(relative(p.pose, t.now(w)))} : Value{};
      };
      break;
    }
    case 5: {
      c.kind = "DistanceCondition";
      const auto way = anyWay(s);
      const auto t = anyTarget(s, w, way.lane);
      c.xml = Xml(c.kind, {{"freespace", way.freespace ? "true" : "false"}, {"rule", c.rule}, {"value", num(limitNear(s, c.limit, 30))}}, {t.xml});
      if (way.lane || s.boolean()) c.xml.with("coordinateSystem", way.lane ? "lane" : "entity");
      if (way.type != "euclidianDistance" || s.boolean()) c.xml.with("relativeDistanceType", way.type);
      if (way.shortest) c.xml.with("routingAlgorithm", "shortest");
      c.measure = [t, way](World & w, int i) {
        const auto & p = w.all[static_cast<std::size_t>(i)];
        return p.added ? distance(p, t.now(w), {}, t.lane, way, false) : Value{};
      };
      break;
    }
    case 6: {
      c.kind = "RelativeDistanceCondition";
      const auto way = anyWay(s);
      const auto other = one(false);
      c.xml = Xml(c.kind, {{"entityRef", other}, {"freespace", way.freespace ? "true" : "false"}, {"rule", c.rule}, {"value", num(limitNear(s, c.limit, 30))}, {"relativeDistanceType", way.type}});
      if (way.lane || s.boolean()) c.xml.with("coordinateSystem", way.lane ? "lane" : "entity");
      if (way.shortest) c.xml.with("routingAlgorithm", "shortest");
      c.measure = [other, way](World & w, int i) {
        const auto &p = w.all[static_cast<std::size_t>(i)], &o = w.all[static_cast<std::size_t>(w.members(other)[0])];
        return p.added && o.added ? distance(p, o.pose, o.box, o.lane, way, true) : Value{};
      };
      break;
    }
    case 7: {
      c.kind = "TimeHeadwayCondition";
      const auto other = one(false);
      c.limit = s.uniform(-1, 10);
      c.xml = Xml(c.kind, {{"entityRef", other}, {"freespace", "false"}, {"alongRoute", "true"}, {"rule", c.rule}, {"value", num(c.limit)}});
      c.measure = [other](World & w, int i) {
        const auto &p = w.all[static_cast<std::size_t>(i)], &o = w.all[static_cast<std::size_t>(w.members(other)[0])];
        if (!p.added || !o.added) return Value{};
        const double x = relative(o.pose, p.pose).x;
        if (&p == &o) return Value{0, p.speed.x != 0, false};
        if (std::abs(x) < 1e-6) return Value{nan, false};
        if (x > 0) return Value{};
        return Value{-x / p.speed.x};
      };
      break;
    }
    case 8: {
      c.kind = "TimeToCollisionCondition";
      const auto way = anyWay(s);
      c.limit = s.uniform(0, 12);
      c.xml = Xml(c.kind, {{"freespace", way.freespace ? "true" : "false"}, {"rule", c.rule}, {"value", num(c.limit)}, {"relativeDistanceType", way.type}});
      if (way.lane || s.boolean()) c.xml.with("coordinateSystem", way.lane ? "lane" : "entity");
      if (way.shortest) c.xml.with("routingAlgorithm", "shortest");
      Xml target("TimeToCollisionConditionTarget");
      const auto time = [](Value d, double speed, bool zero) {
        if (std::isnan(d.x) || std::isnan(speed)) return Value{};
        if (std::abs(speed) < 1e-9 && !zero) return Value{nan, false};
        if (speed <= 0 && std::abs(d.x) < 1e-9) return Value{nan, false};
        return Value{d.x / std::max(speed, 0.0), d.sure};
      };
      const std::string dimension = way.type == "euclidianDistance" ? "" : way.type;
      if (s.boolean()) {
        const auto other = one(false);
        target.add(Xml("EntityRef", {{"entityRef", other}}));
        c.measure = [=](World & w, int i) {
          const auto &p = w.all[static_cast<std::size_t>(i)], &o = w.all[static_cast<std::size_t>(w.members(other)[0])];
          if (!p.added || !o.added) return Value{};
          return time(distance(p, o.pose, o.box, o.lane, way, true), pick(relativeSpeed(o, p), dimension), false);
        };
      } else {
        const auto t = anyTarget(s, w, way.lane);
        target.add(t.xml);
        c.measure = [=](World & w, int i) {
          const auto & p = w.all[static_cast<std::size_t>(i)];
          if (!p.added) return Value{};
          return time(distance(p, t.now(w), {}, t.lane, way, false), pick(p.speed, dimension), true);
        };
      }
      c.xml.add(target);
      break;
    }
    case 9: {
      c.kind = "CollisionCondition";
      c.xml = Xml(c.kind);
      const auto collide = [](const Participant & a, const Participant & b) -> std::optional<bool> {
        if (&a == &b || !a.added || !b.added) return false;
        using math::geometry::checkCollision2D;
        return checkCollision2D(a.pose, a.box, b.pose, b.box);
      };
      if (s.boolean()) {
        const auto other = one(false);
        c.xml.add(Xml("EntityRef", {{"entityRef", other}}));
        if (w.all[static_cast<std::size_t>(w.members(other)[0])].added)
          c.decide = [=](World & w, int i) { return collide(w.all[static_cast<std::size_t>(i)], w.all[static_cast<std::size_t>(w.members(other)[0])]); };
        else
          c.whole = [](World &, const std::vector<int> &) { return false; };
      } else {
        const auto type = s.pick({std::string("vehicle"), std::string("pedestrian"), std::string("miscellaneous")});
        c.xml.add(Xml("ByType", {{"type", type}}));
        c.decide = [=](World & w, int i) {
          std::optional<bool> any = false;
          for (auto & o : w.all)
            if (o.kind == type) any = either(any, collide(w.all[static_cast<std::size_t>(i)], o));
          return any;
        };
      }
      break;
    }
    default: {
      c.kind = "RelativeClearanceCondition";
      groups = false, all_added = true;
      const bool freespace = s.boolean();
      const double forward = s.uniform(0, 40), backward = s.uniform(0, 40);
      c.xml = Xml(c.kind, {{"freeSpace", freespace ? "true" : "false"}, {"oppositeLanes", "false"}});
      if (forward > 5) c.xml.with("distanceForward", num(forward));
      if (backward > 5) c.xml.with("distanceBackward", num(backward));
      std::vector<std::pair<std::optional<int>, std::optional<int>>> ranges;
      for (std::size_t k = s.length(2); k-- > 0;) {
        std::optional<int> a, b;
        if (s.chance(70)) a = static_cast<int>(s.integer(-2, 1));
        if (s.chance(70)) b = a.value_or(-1) + static_cast<int>(s.integer(0, 2));
        Xml range("RelativeLaneRange");
        if (a) range.with("from", num(*a));
        if (b) range.with("to", num(*b));
        c.xml.add(range);
        ranges.emplace_back(a, b);
      }
      std::vector<std::string> targets;
      for (std::size_t k = s.length(2); k-- > 0;) {
        std::string t = s.chance(25) && !w.selections.empty() ? s.pick({w.selections.begin()->first, w.selections.rbegin()->first}) : one(true);
        bool fine = !t.empty();
        for (int m : w.members(t)) fine = fine && w.all[static_cast<std::size_t>(m)].added;
        if (!fine) continue;
        targets.push_back(t);
        c.xml.add(Xml("EntityRef", {{"entityRef", t}}));
      }
      const auto clear = [=](World & w, int i, int o) -> std::optional<bool> {
        const auto &p = w.all[static_cast<std::size_t>(i)], &q = w.all[static_cast<std::size_t>(o)];
        const bool known = p.lane && q.lane;
        if (!known) return true;
        RoutingConfiguration how;
        how.allow_lane_change = true;
        const double turned = std::abs(static_cast<LaneletPose>(*p.lane).rpy.z);
        const double sign = turned > M_PI / 2 ? -1 : 1;
        if (!ranges.empty()) {
          const auto changes = ts::route::countLaneChanges(*p.lane, *q.lane, how);
          if (!changes) return true;
          const int lanes = static_cast<int>(sign) * (changes->first - changes->second);
          bool in = false;
          for (auto & [a, b] : ranges) in = in || ((!a || *a <= lanes) && (!b || lanes <= *b));
          if (!in) return true;
        }
        const double along = sign * (freespace ? ts::pose::boundingBoxRelativeLaneletPose(*p.lane, p.box, *q.lane, q.box, how).s : ts::pose::relativeLaneletPose(*p.lane, *q.lane, how).s);
        if (std::isnan(along)) return true;
        if (std::abs(turned - M_PI / 2) < 1e-6) return {};
        const double f = forward > 5 ? forward : 0, b = backward > 5 ? backward : 0;
        if (along != 0 && (std::abs(along) < 1e-6 || std::abs(along - f) < 1e-6 || std::abs(along + b) < 1e-6)) return {};
        return along < 0 ? -along > b : along > f;
      };
      c.whole = nullptr;
      c.decide = [=, &c](World & w, int i) {
        std::optional<bool> r = true;
        (void)i;
        (void)w;
        return r;
      };
      // depends on who else is triggering
      auto evaluate = [=](World & w, int i, const std::vector<int> & triggering) {
        std::optional<bool> r = true;
        if (!targets.empty()) {
          for (auto & t : targets)
            for (int m : w.members(t)) r = both(r, clear(w, i, m));
        } else {
          for (std::size_t o = 0; o < w.all.size(); ++o)
            if (w.all[o].added && !std::count(triggering.begin(), triggering.end(), static_cast<int>(o))) r = both(r, clear(w, i, static_cast<int>(o)));
        }
        return r;
      };
      const auto rule = c.triggering_rule;
      c.decide = nullptr;
      c.whole = [=](World & w, const std::vector<int> & triggering) {
        std::optional<bool> any = false, all = true;
        for (int i : triggering) {
          const auto r = evaluate(w, i, triggering);
          any = either(any, r), all = both(all, r);
        }
        return rule == "any" ? any : rule == "all" ? all : negate(any);
      };
    }
  }
  // who triggers
  std::vector<std::string> names;
  for (auto & p : w.all)
    if (p.added || !all_added) names.push_back(p.name);
  if (groups)
    for (auto & [g, m] : w.selections) {
      bool fine = true;
      for (int i : m) fine = fine && (!all_added || w.all[static_cast<std::size_t>(i)].added);
      if (fine) names.push_back(g);
    }
  Xml triggering("TriggeringEntities", {{"triggeringEntitiesRule", c.triggering_rule}});
  if (!names.empty())
    for (std::size_t k = s.length(1, 3); k-- > 0;) {
      const auto n = s.pick(names);
      if (std::count(c.triggering.begin(), c.triggering.end(), n)) continue;
      c.triggering.push_back(n);
      triggering.add(Xml("EntityRef", {{"entityRef", n}}));
    }
  c.xml = Xml("ByEntityCondition", {}, {triggering, Xml("EntityCondition", {}, {c.xml})});
  return c;
}
std::optional<bool> expected(Condition & c, World & w, std::string & why)
{
  if (c.whole) {
    std::vector<int> ids;
    for (auto & t : c.triggering)
      for (int i : w.members(t)) ids.push_back(i);
    return c.whole(w, ids);
  }
  std::optional<bool> any = false, all = true;
  for (auto & t : c.triggering) {
    std::optional<bool> r = true;
    for (int i : w.members(t)) {
      if (c.measure) {
        const auto v = c.measure(w, i);
        why += " " + w.all[static_cast<std::size_t>(i)].name + ": " + num(v.x);
        r = both(r, holds(v, c.rule, c.limit));
      } else {
        r = both(r, c.decide(w, i));
      }
    }
    any = either(any, r), all = both(all, r);
  }
  return c.triggering_rule == "any" ? any : c.triggering_rule == "all" ? all : negate(any);
}
}  // namespace

VF_PROP("entities", 4000, 600000)
{
  auto w = generate(s);
  const auto text = w->parts.document().str();
  c.log << w->net->text << "\n" << text;
  Run run(text, *w->net);
  std::map<std::string, Status> statuses;
  Plugin::move = nullptr;
  run.activate();
  std::map<std::string, std::function<void(Plugin &)>> motion;
  Plugin::move = [&](Plugin & p, double, double) {
    statuses[p.CanonicalizedEntityStatus_->getName()] = p.CanonicalizedEntityStatus_;
    if (auto i = motion.find(p.CanonicalizedEntityStatus_->getName()); i != motion.end()) i->second(p);
    for (auto & q : w->all)
      if (q.name == p.CanonicalizedEntityStatus_->getName()) q.still = q.speed.x == 0 ? q.still + 1.0 / 30 : 0;
  };
  struct Clean
  {
    ~Clean() { Plugin::move = nullptr; }
  } clean;
  run.frame();
  run.frame();
  // misc objects stay where they were put
  std::size_t next = 0;
  for (auto & p : w->all) {
    if (!p.added) continue;
    const auto & x = w->parts.init.children[next++].children[0].children[0].children[0].children[0];
    LaneletPose at = pose(std::stol(x.attributes[1].second), std::stod(x.attributes[2].second), std::stod(x.attributes[3].second), std::stod(x.children[0].attributes[1].second));
    p.lane = CanonicalizedLaneletPose(at);
    p.pose = ts::pose::toMapPose(*p.lane);
  }
  std::vector<Condition> conditions;
  for (std::size_t i = s.length(4, 14); i-- > 0;) {
    auto made = anyCondition(s, *w);
    if (made.triggering.empty()) continue;
    made.document = std::make_shared<pugi::xml_document>();
    const auto t = made.xml.str();
    c.log << t;
    c.require(static_cast<bool>(made.document->load_string(t.c_str())), "not well-formed");
    made.made = std::make_shared<osc::ByEntityCondition>(made.document->document_element(), *run.script);
    conditions.push_back(std::move(made));
  }
  std::size_t decided = 0, holding = 0;
  for (std::size_t frame = s.length(1, 6); frame-- > 0;) {
    motion.clear();
    for (auto & p : w->all) {
      if (!p.added || p.kind == "miscellaneous") continue;
      std::optional<LaneletPose> on;
      std::optional<Pose> off;
      if (s.chance(70)) {
        on = anywhere(s, *w->net);
      } else if (s.chance(50)) {
        off = ts::pose::toMapPose(CanonicalizedLaneletPose(anywhere(s, *w->net)));
        off->position.x += s.uniform(-8, 8), off->position.y += s.uniform(-8, 8);
      }
      const bool stop = s.chance(35);
      const V speed = stop ? V{0, 0, 0} : V{s.chance(30) ? std::round(s.uniform(-5, 5)) : s.uniform(-3, 12), s.chance(30) ? s.uniform(-2, 2) : 0, s.chance(30) ? s.uniform(-2, 2) : 0};
      const double acceleration = s.chance(30) ? std::round(s.uniform(-4, 4)) : s.uniform(-4, 4);
      motion[p.name] = [on, off, speed, acceleration, &p](Plugin & plugin) {
        auto & status = *plugin.CanonicalizedEntityStatus_;
        auto e = static_cast<ts::EntityStatus>(status);
        if (on) {
          e.lanelet_pose = *on, e.lanelet_pose_valid = true;
          e.pose = ts::pose::toMapPose(CanonicalizedLaneletPose(*on));
        }
        if (off) {
          e.lanelet_pose_valid = false;
          e.pose = *off;
        }
        if (on || off) status.set(e, 1.0);
        auto twist = geometry_msgs::msg::Twist();
        twist.linear.x = speed.x, twist.linear.y = speed.y, twist.linear.z = speed.z;
        status.setTwist(twist);
        status.setLinearAcceleration(acceleration);
        if (on) p.pose = e.pose;
        if (off) p.pose = *off;
        p.moved = true;
      };
      p.speed = speed, p.acceleration = acceleration;
    }
    run.frame();
    for (auto & p : w->all) {
      if (!p.added) continue;
      if (p.kind == "miscellaneous") continue;
      c.require(p.moved, p.name, " is not moved");
      const auto & status = statuses.at(p.name);
      p.lane = status->getCanonicalizedLaneletPose();
      const auto & q = status->getMapPose();
      // on a lane, height and slope are the lane's
      c.require(std::hypot(q.position.x - p.pose.position.x, q.position.y - p.pose.position.y) < 1e-9, p.name, " is at ", q.position.x, " ", q.position.y, ", not ", p.pose.position.x, " ", p.pose.position.y);
      p.pose = q;
      c.log << frame << ": " << p.name << " at " << p.pose.position.x << " " << p.pose.position.y << " " << p.pose.position.z << " speed " << p.speed.x << "\n";
    }
    for (auto & condition : conditions) {
      std::string why;
      auto want = expected(condition, *w, why);
      if (condition.kind == "StandStillCondition")
        for (auto & t : condition.triggering)
          for (int i : w->members(t))
            if (w->all[static_cast<std::size_t>(i)].kind == "miscellaneous") want = {};
      const bool is = condition.made->evaluate().as<osc::Boolean>();
      if (!want) continue;
      ++decided;
      if (*want) ++holding;
      c.label(condition.kind + (*want ? " holds" : " does not hold"));
      c.require(is == *want, condition.made->description(), "\nin the frame ", frame, " before the last, ", condition.xml.children[1].children[0].name, " is ", is, why, "\n", condition.xml.str());
    }
  }
  if (holding && holding < decided) c.nontrivial();
}
