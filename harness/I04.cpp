// Actions on entities: what each one asks of the entities it is applied to, and when it ends.
#include "vf.hpp"
#include "interp_pch.hpp"
#include <openscenario_interpreter/syntax/global_action.hpp>
#include <openscenario_interpreter/syntax/private_action.hpp>
#include <openscenario_interpreter/syntax/user_defined_action.hpp>
#include "cast.hpp"
using namespace cast;

namespace
{
std::string list(const std::vector<std::string> & names)
{
  std::string r;
  for (const auto & n : names) r += n + " ";
  return r;
}
using traffic_simulator_msgs::msg::DynamicConstraints;
template <typename T>
struct Acting  // an action of the interpreter, applied to some actors
{
  std::shared_ptr<pugi::xml_document> document = std::make_shared<pugi::xml_document>();
  std::shared_ptr<osc::Scope> scope;
  std::shared_ptr<T> action;
  Acting(Run & run, const Xml & xml, const std::vector<std::string> & actors) : scope(std::make_shared<osc::Scope>(*run.script))
  {
    document->load_string(xml.str().c_str());
    scope->actors.clear();
    for (const auto & a : actors) scope->actors.emplace_back(osc::String(a), *scope);
    action = std::make_shared<T>(document->document_element(), *scope);
  }
};
struct Stage  // a running scenario
{
  std::unique_ptr<World> world;
  Run run;
  std::map<std::string, Plugin *> plugins;
  std::map<std::string, std::function<void(Plugin &)>> motion;
  std::map<std::string, int> moves;
  explicit Stage(std::unique_ptr<World> w) : world(std::move(w)), run(world->parts.document().str(), *world->net)
  {
    Plugin::move = [this](Plugin & p, double, double) {
      const auto & name = p.CanonicalizedEntityStatus_->getName();
      plugins[name] = &p;
      ++moves[name];
      if (auto i = motion.find(name); i != motion.end()) i->second(p);
    };
    run.activate();
    run.frame();
    run.frame();
  }
  ~Stage() { Plugin::move = nullptr; }
};
Xml speedAction(const Xml & target, const std::string & shape, const std::string & dimension, double value)
{
  return Xml("SpeedAction", {}, {Xml("SpeedActionDynamics", {{"dynamicsShape", shape}, {"dynamicsDimension", dimension}, {"value", num(value)}}), Xml("SpeedActionTarget", {}, {target})});
}
Xml absoluteTarget(double v) { return Xml("AbsoluteTargetSpeed", {{"value", num(v)}}); }

// ---------------------------------------------------------------- speeds
struct Target
{
  std::string entity;  // the reference, nothing if absolute
  double value = 0;
  bool factor = false;
  double of(const std::map<std::string, double> & speeds) const
  {
    if (entity.empty()) return value;
    const double v = speeds.at(entity);
    return factor ? v * value : v + value;
  }
};
struct Driver  // what an entity is to do about its speed
{
  double speed = 0;
  std::optional<double> target;
  bool sure = true;  // whether the target is known at the next update
  // what is going on
  bool active = false, continuous = false;
  Target aim;
  enum { none, up, down, relative } limiting = none;
  double until = 0, rate = 0;
  Target with;
  // the limits
  bool limits_sure = true;
  DynamicConstraints limits;
};
DynamicConstraints usual(const std::string & kind)
{
  DynamicConstraints d;
  if (kind == "pedestrian") d.max_acceleration = d.max_acceleration_rate = d.max_deceleration = d.max_deceleration_rate = 1;
  return d;
}
bool reached(double v, double target) { return std::abs(target - v) <= 0.01; }
std::string text(const DynamicConstraints & d) { return num(d.max_speed) + " " + num(d.max_acceleration) + " " + num(d.max_acceleration_rate) + " " + num(d.max_deceleration) + " " + num(d.max_deceleration_rate); }
bool same(const DynamicConstraints & a, const DynamicConstraints & b)
{
  const auto near = [](double x, double y) { return std::abs(x - y) <= 1e-9 * (1 + std::abs(x)); };
  return near(a.max_speed, b.max_speed) && near(a.max_acceleration, b.max_acceleration) && near(a.max_acceleration_rate, b.max_acceleration_rate) && near(a.max_deceleration, b.max_deceleration) && near(a.max_deceleration_rate, b.max_deceleration_rate);
}
void limit(Driver & d, const std::string & kind, const Target & t, double rate, const std::map<std::string, double> & speeds)
{
  if (t.entity.empty()) {
    if (d.speed <= t.value) {
      if (d.limiting != Driver::none) d.limits = usual(kind), d.limits_sure = true;
      d.limiting = Driver::up, d.until = t.value, d.limits.max_acceleration = std::abs(rate);
    } else if (d.speed > t.value) {
      if (d.limiting != Driver::none) d.limits = usual(kind), d.limits_sure = true;
      d.limiting = Driver::down, d.until = t.value, d.limits.max_deceleration = std::abs(rate);
    }
  } else {
    if (d.limiting != Driver::none) d.limits = usual(kind), d.limits_sure = true;
    d.limiting = Driver::relative, d.with = t, d.rate = std::abs(rate);
  }
  (void)speeds;
}
/// a request for a speed, to be held if continuous
void request(Driver & d, const Target & t, bool continuous, const std::map<std::string, double> & speeds)
{
  if (reached(d.speed, t.of(speeds)) && !continuous) return;
  if (d.active && !d.continuous) d.target = std::nullopt;  // the former one is given up
  d.active = true, d.continuous = continuous, d.aim = t;
  if (t.entity.empty()) d.target = t.value;
  else d.sure = false;  // from the next update on
}
void ask(Driver & d, const std::string & kind, const Target & t, const std::string & shape, double rate, bool continuous, const std::map<std::string, double> & speeds)
{
  if (reached(d.speed, t.of(speeds)) && !continuous) return;
  if (shape == "step") {
    request(d, t, continuous, speeds);
    d.speed = t.of(speeds);
    return;
  }
  limit(d, kind, t, rate, speeds);
  request(d, t, continuous, speeds);
}
/// the end of an update, in which the entity was moved
void update(Driver & d, const std::string & kind, const std::map<std::string, double> & before)
{
  d.sure = true;
  if (d.limiting == Driver::up && d.speed >= d.until) d.limiting = Driver::none, d.limits = usual(kind), d.limits_sure = true;
  if (d.limiting == Driver::down && d.speed <= d.until) d.limiting = Driver::none, d.limits = usual(kind), d.limits_sure = true;
  if (d.limiting == Driver::relative) {
    const double gap = d.with.of(before) - d.speed;
    if (gap > 0.1) d.limits.max_acceleration = d.rate;
    else if (gap < -0.1) d.limits.max_deceleration = d.rate;
    else d.limiting = Driver::none, d.limits = usual(kind), d.limits_sure = true;
  }
  if (!d.active) return;
  const double v = d.aim.of(before);
  if (!d.continuous && reached(d.speed, v)) {
    d.active = false;
    d.target = std::nullopt;
  } else {
    d.target = v;
  }
}
struct Profile
{
  bool position = false;
  std::string entity;
  std::vector<std::pair<double, double>> entries;  // speed and time
  DynamicConstraints limits;
  std::map<std::string, std::size_t> at;  // of each actor
};
struct Speeding
{
  bool is_profile = false;
  Xml xml{""};
  std::vector<std::string> actors;
  Target target;
  std::string shape;
  double rate = 0;
  bool continuous = true;
  Profile profile;
  std::map<std::string, bool> done;
  std::shared_ptr<Acting<osc::SpeedAction>> speed;
  std::shared_ptr<Acting<osc::SpeedProfileAction>> profiled;
};
bool timed(const Speeding & a)
{
  bool r = false;
  for (auto & [speed, time] : a.profile.entries) r = r || !std::isnan(time);
  return r && !a.profile.position;
}
double anySpeed(vf::Src & s) { return 0.25 * static_cast<double>(s.integer(0, 40)); }
}  // namespace

VF_PROP("speeds", 1500, 200000)
{
  auto generated = generate(s);
  c.log << generated->net->text << "\n" << generated->parts.document().str();
  Stage stage(std::move(generated));
  auto & w = *stage.world;
  std::map<std::string, Driver> drivers;
  std::map<std::string, std::string> kinds;
  std::vector<std::string> names, singles, misc;
  for (auto & p : w.all) {
    kinds[p.name] = p.kind;
    if (!p.added) continue;
    if (p.kind == "miscellaneous") {
      misc.push_back(p.name);
      continue;
    }
    if (!stage.plugins.count(p.name)) continue;
    singles.push_back(p.name);
    drivers[p.name].limits = usual(p.kind);
    drivers[p.name].limits = stage.plugins.at(p.name)->BehaviorParameter_.dynamic_constraints;
  }
  if (singles.empty()) return;
  names = singles;
  for (auto & [g, members] : w.selections) {
    bool fine = !members.empty();
    for (int m : members) fine = fine && drivers.count(w.all[static_cast<std::size_t>(m)].name);
    if (fine) names.push_back(g);
    bool any = false;
    for (int m : members) any = any || w.all[static_cast<std::size_t>(m)].kind == "miscellaneous";
    if (any) misc.push_back(g);
  }
  const auto speeds = [&] {
    std::map<std::string, double> r;
    for (auto & [n, d] : drivers) r[n] = d.speed;
    return r;
  };
  const auto members = [&](const std::string & actor) {
    std::vector<std::string> r;
    for (int m : w.members(actor)) r.push_back(w.all[static_cast<std::size_t>(m)].name);
    return r;
  };
  if (!misc.empty()) {
    const auto m = s.pick(misc);
    VF_THROWS(openscenario_interpreter::SemanticError, (Acting<osc::SpeedAction>(stage.run, speedAction(absoluteTarget(1), "step", "rate", 1), {m})));
    VF_THROWS(openscenario_interpreter::SemanticError, (Acting<osc::SpeedProfileAction>(stage.run, Xml("SpeedProfileAction", {{"followingMode", "position"}}, {Xml("SpeedProfileEntry", {{"speed", "1"}})}), {m})));
  }
  std::vector<Speeding> all;
  std::map<std::string, std::size_t> owner;  // which action is the latest of an entity
  std::size_t ended = 0, changes = 0;
  const auto applyProfile = [&](Speeding & a, const std::string & actor, std::size_t index) {
    const auto now = speeds();
    for (const auto & n : members(actor)) {
      auto & d = drivers.at(n);
      const auto assign = [](double & x, double y) {
        if (!std::isinf(y)) x = y;
      };
      if (d.limiting != Driver::none && !a.profile.position) d.limits_sure = false;
      assign(d.limits.max_speed, a.profile.limits.max_speed), assign(d.limits.max_acceleration, a.profile.limits.max_acceleration), assign(d.limits.max_acceleration_rate, a.profile.limits.max_acceleration_rate);
      assign(d.limits.max_deceleration, a.profile.limits.max_deceleration), assign(d.limits.max_deceleration_rate, a.profile.limits.max_deceleration_rate);
      const auto [speed, time] = a.profile.entries[index];
      Target t;
      t.value = speed, t.entity = a.profile.entity;
      const bool continuous = std::isnan(time);
      if (!continuous) t.value = t.of(now), t.entity.clear();
      if (reached(d.speed, t.of(now)) && !continuous) continue;
      if (a.profile.position && !continuous) {
        limit(d, kinds[n], t, (t.value - d.speed) / time, now);
      } else if (a.profile.position) {
        limit(d, kinds[n], t, 10, now);
        d.limits_sure = false;
      } else if (!continuous) {
        d.limits_sure = false;
        d.limiting = Driver::none;
      }
      request(d, t, continuous, now);
    }
  };
  for (std::size_t frame = 0, frames = s.length(4, 16); frame < frames; ++frame) {
    // start something
    if (s.chance(55)) {
      Speeding a;
      for (std::size_t k = s.length(1, 2); k-- > 0;) {
        const auto n = s.pick(names);
        if (!std::count(a.actors.begin(), a.actors.end(), n)) a.actors.push_back(n);
      }
      std::set<std::string> who;
      for (auto & n : a.actors)
        for (auto & m : members(n)) who.insert(m);
      std::vector<std::string> others;
      for (auto & n : singles)
        if (!who.count(n)) others.push_back(n);
      const bool relative = !others.empty() && s.chance(45);
      if (relative) a.target.entity = s.pick(others);
      a.is_profile = s.chance(30);
      if (!a.is_profile) {
        a.shape = s.pick({std::string("step"), std::string("linear"), std::string("linear")});
        a.rate = s.boolean() ? 0.25 * static_cast<double>(s.integer(1, 32)) : s.uniform(0.1, 8);
        const auto dimension = a.shape == "step" ? s.pick({std::string("rate"), std::string("time"), std::string("distance")}) : std::string("rate");  // the others are documented as unsupported
        if (relative) {
          a.target.factor = s.chance(40);
          a.target.value = a.target.factor ? s.pick({0.5, 1.0, 2.0, 0.0}) : 0.25 * static_cast<double>(s.integer(-8, 16));
          if (drivers.at(a.target.entity).speed + a.target.value < 0 && !a.target.factor) a.target.value = -a.target.value;
          a.continuous = s.boolean();
          Xml x("RelativeTargetSpeed", {{"entityRef", a.target.entity}, {"value", num(a.target.value)}});
          if (a.target.factor || s.boolean()) x.with("speedTargetValueType", a.target.factor ? "factor" : "delta");
          if (a.continuous || s.boolean()) x.with("continuous", a.continuous ? "true" : "false");
          a.xml = speedAction(x, a.shape, dimension, a.rate);
        } else {
          a.target.value = anySpeed(s);
          a.xml = speedAction(absoluteTarget(a.target.value), a.shape, dimension, a.rate);
        }
        c.log << frame << ": " << list(a.actors) << a.xml.str();
        a.speed = std::make_shared<Acting<osc::SpeedAction>>(stage.run, a.xml, a.actors);
        a.speed->action->start();
        const auto now = speeds();
        for (auto & actor : a.actors)
          for (auto & n : members(actor)) ask(drivers.at(n), kinds[n], a.target, a.shape, a.rate, relative ? a.continuous : true, now);
        c.label(std::string("speed ") + a.shape + (relative ? a.continuous ? " relative continuous" : " relative" : " absolute"));
        c.require(a.speed->action->endsImmediately() == (a.shape == "step"), "the action ends immediately: ", a.speed->action->endsImmediately());
      } else {
        a.profile.position = s.boolean();
        a.profile.entity = a.target.entity;
        a.xml = Xml("SpeedProfileAction", {{"followingMode", a.profile.position ? "position" : "follow"}});
        if (relative) a.xml.with("entityRef", a.profile.entity);
        a.profile.limits.max_speed = a.profile.limits.max_acceleration = a.profile.limits.max_acceleration_rate = a.profile.limits.max_deceleration = a.profile.limits.max_deceleration_rate = cast::inf;
        if (s.boolean()) {
          Xml x("DynamicConstraints");
          const auto set = [&](const char * name, double & value) {
            if (s.chance(60)) x.with(name, num(value = s.uniform(0.5, 9)));
          };
          set("maxAcceleration", a.profile.limits.max_acceleration), set("maxAccelerationRate", a.profile.limits.max_acceleration_rate), set("maxDeceleration", a.profile.limits.max_deceleration);
          set("maxDecelerationRate", a.profile.limits.max_deceleration_rate), set("maxSpeed", a.profile.limits.max_speed);
          a.xml.add(x);
        }
        for (std::size_t k = s.length(1, 3); k-- > 0;) {
          const double v = relative ? 0.25 * static_cast<double>(s.integer(0, 16)) : anySpeed(s), t = s.boolean() ? cast::nan : 0.5 * static_cast<double>(s.integer(2, 16));
          a.profile.entries.emplace_back(v, t);
          Xml x("SpeedProfileEntry", {{"speed", num(v)}});
          if (!std::isnan(t)) x.with("time", num(t));
          a.xml.add(x);
        }
        // a selection and one of its members go through the profile each on its own
        std::set<std::string> seen;
        std::vector<std::string> apart;
        for (auto & n : a.actors) {
          bool fine = true;
          for (auto & m : members(n)) fine = fine && !seen.count(m);
          if (!fine) continue;
          apart.push_back(n);
          for (auto & m : members(n)) seen.insert(m);
        }
        a.actors = apart;
        c.log << frame << ": " << list(a.actors) << a.xml.str();
        a.profiled = std::make_shared<Acting<osc::SpeedProfileAction>>(stage.run, a.xml, a.actors);
        try {
          a.profiled->action->start();
        } catch (const std::exception &) {  // out of reach within that time
          c.require(timed(a), "the profile is refused");
          return;
        }
        for (auto & n : a.actors) {
          a.profile.at[n] = 0;
          applyProfile(a, n, 0);
        }
        c.label(std::string("profile ") + (a.profile.position ? "position" : "follow") + (relative ? " relative" : ""));
        c.require(!a.profiled->action->endsImmediately(), "a speed profile ends immediately");
      }
      for (auto & n : a.actors) a.done[n] = false;
      for (auto & n : who) {  // profiles that are overridden are not looked at any more
        for (auto i = all.begin(); i != all.end();) {
          bool concerned = false;
          if (i->is_profile)
            for (auto & actor : i->actors)
              for (auto & m : members(actor)) concerned = concerned || m == n;
          i = concerned ? all.erase(i) : i + 1;
        }
      }
      all.push_back(std::move(a));
    }
    // an update
    const auto before = speeds();
    std::set<std::string> moved;
    for (auto & [name, d] : drivers) {
      double v = d.speed;
      const double aim = d.active ? d.aim.of(before) : d.target.value_or(v);
      switch (s.index(8)) {
        case 0: v = aim; break;
        case 1: v = aim; break;
        case 2: v = aim + 0.0078125 * (s.boolean() ? 1 : -1); break;
        case 3: v = aim + 0.0625 * (s.boolean() ? 1 : -1); break;
        case 4: v = (v + aim) / 2; break;
        case 5: v = anySpeed(s); break;
        default: break;
      }
      v = std::clamp(std::round(v * 1024) / 1024, 0.0, 60.0);
      auto & driver = d;
      const auto now = frame;
      stage.motion[name] = [&, v, now, name = name](Plugin & p) {
        moved.insert(name);
        if (driver.sure) {
          c.require(p.TargetSpeed_.has_value() == driver.target.has_value() && (!driver.target || std::abs(*p.TargetSpeed_ - *driver.target) < 1e-9), "at the update ", now, ", the target speed of ", name, " is ", p.TargetSpeed_ ? num(*p.TargetSpeed_) : "nothing", " instead of ",
            driver.target ? num(*driver.target) : "nothing");
        }
        const auto & is = p.BehaviorParameter_.dynamic_constraints;
        if (driver.limits_sure) c.require(same(is, driver.limits), "at the update ", now, ", the limits of ", name, " are ", text(is), " instead of ", text(driver.limits));
        auto & status = *p.CanonicalizedEntityStatus_;
        c.require(std::abs(status.getTwist().linear.x - driver.speed) < 1e-9, "at the update ", now, ", the speed of ", name, " is ", status.getTwist().linear.x, " instead of ", driver.speed);
        auto twist = geometry_msgs::msg::Twist();
        twist.linear.x = v;
        status.setTwist(twist);
        status.setLinearAcceleration(0);
        driver.speed = v;
      };
    }
    stage.run.frame();
    for (auto & [name, d] : drivers) {
      c.require(moved.count(name), name, " is not updated");
      c.log << frame << ": " << name << " " << d.speed << "\n";
    }
    for (auto & [name, d] : drivers) update(d, kinds[name], before);
    // what has ended
    const auto now = speeds();
    for (auto & a : all) {
      if (a.is_profile) {
        for (auto & n : a.actors) {
          auto & at = a.profile.at[n];
          if (at == a.profile.entries.size()) continue;
          bool all_there = true;
          for (auto & m : members(n)) all_there = all_there && now.at(m) == a.profile.entries[at].first + (a.profile.entity.empty() ? 0 : now.at(a.profile.entity));
          if (!all_there) continue;
          ++changes;
          if (++at < a.profile.entries.size()) applyProfile(a, n, at);
        }
        try {
          a.profiled->action->run();
        } catch (const std::exception &) {
          c.require(timed(a), "the profile is refused");
          return;
        }
        bool want = true;
        for (auto & n : a.actors) want = want && a.profile.at[n] == a.profile.entries.size();
        c.require(a.profiled->action->accomplished() == want, "after the update ", frame, ", the profile is accomplished: ", !want, "\n", a.xml.str());
        ended += want;
      } else {
        bool want = a.shape == "step";
        if (!want && (a.target.entity.empty() || !a.continuous)) {
          want = true;
          for (auto & n : a.actors) {  // looked at until one of them is not there yet
            bool there = true;
            for (auto & m : members(n)) there = there && now.at(m) == a.target.of(now);
            a.done[n] = a.done[n] || there;
            want = want && a.done[n];
          }
          // which of the others have been looked at is unspecified
          if (a.actors.size() > 1 && !want)
            for (auto & n : a.actors) {
              bool there = true;
              for (auto & m : members(n)) there = there && now.at(m) == a.target.of(now);
              if (there) a.done[n] = true;
            }
        }
        const bool is = a.speed->action->accomplished();
        if (a.actors.size() > 1 && a.shape != "step" && is != want) {
          // an actor is only looked at if those before it are done
          bool now_there = true;
          for (auto & n : a.actors)
            for (auto & m : members(n)) now_there = now_there && now.at(m) == a.target.of(now);
          c.require(!is && !now_there && want, "after the update ", frame, ", the action is accomplished: ", is, "\n", a.xml.str());
          continue;
        }
        c.require(is == want, "after the update ", frame, ", the action is accomplished: ", is, "\n", a.xml.str());
        ended += want && a.shape != "step";
      }
    }
  }
  if (ended || changes) c.nontrivial();
}

// ---------------------------------------------------------------- places
namespace
{
using Quaternion = geometry_msgs::msg::Quaternion;
Quaternion times(const Quaternion & a, const Quaternion & b)
{
  Quaternion r;
  r.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z;
  r.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y;
  r.y = a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x;
  r.z = a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w;
  return r;
}
Quaternion turned(double yaw, double pitch = 0, double roll = 0)
{
  Quaternion z, y, x;
  z.w = std::cos(yaw / 2), z.z = std::sin(yaw / 2);
  y.w = std::cos(pitch / 2), y.y = std::sin(pitch / 2);
  x.w = std::cos(roll / 2), x.x = std::sin(roll / 2);
  return times(z, times(y, x));
}
double apart(const Quaternion & a, const Quaternion & b)  // angle between two orientations
{
  const double d = std::abs(a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z);
  return 2 * std::acos(std::min(1.0, d));
}
Xml addEntity(const std::string & name, const Xml & position) { return Xml("GlobalAction", {}, {Xml("EntityAction", {{"entityRef", name}}, {Xml("AddEntityAction", {}, {position})})}); }
Xml deleteEntity(const std::string & name) { return Xml("GlobalAction", {}, {Xml("EntityAction", {{"entityRef", name}}, {Xml("DeleteEntityAction")})}); }
struct Place
{
  Pose pose;
  bool exact = false;  // the position is given on a lane
  bool tilted = false;
  std::string describe() const { return num(pose.position.x) + " " + num(pose.position.y) + " " + num(pose.position.z) + " heading " + num(yawOf(pose.orientation)); }
};
double fromLanes(const Net & net, const Pose & p)  // from the closest centre line
{
  double least = 1e9;
  for (auto & [id, l] : net.lanes)
    for (std::size_t i = 1; i < l.center.size(); ++i) least = std::min(least, toSegment2d(lanes::at(p.position), l.center[i - 1], l.center[i]));
  return least;
}
Pose of(const geometry_msgs::Pose & p)
{
  Pose r;
  r.position.x = p.position().x(), r.position.y = p.position().y(), r.position.z = p.position().z();
  r.orientation.x = p.orientation().x(), r.orientation.y = p.orientation().y(), r.orientation.z = p.orientation().z(), r.orientation.w = p.orientation().w();
  return r;
}
Xml orientation(vf::Src & s, const std::string & type, double & h, double & p, double & r)
{
  Xml x("Orientation", {{"type", type}});
  if (s.chance(70)) h = s.uniform(-3, 3);
  if (s.chance(30)) p = s.uniform(-0.5, 0.5);
  if (s.chance(30)) r = s.uniform(-0.5, 0.5);
  if (h != 0 || s.boolean()) x.with("h", num(h));
  if (p != 0 || s.boolean()) x.with("p", num(p));
  if (r != 0 || s.boolean()) x.with("r", num(r));
  return x;
}
}  // namespace

VF_PROP("places", 1200, 160000)
{
  auto generated = generate(s);
  c.log << generated->net->text << "\n" << generated->parts.document().str();
  Stage stage(std::move(generated));
  auto & w = *stage.world;
  std::map<std::string, Place> places;
  std::vector<std::string> targets;
  {
    std::size_t next = 0;
    for (auto & p : w.all) {
      targets.push_back(p.name);
      if (!p.added) continue;
      const auto & x = w.parts.init.children[next++].children[0].children[0].children[0].children[0];
      places[p.name] = {ts::pose::toMapPose(CanonicalizedLaneletPose(pose(std::stol(x.attributes[1].second), std::stod(x.attributes[2].second), std::stod(x.attributes[3].second), std::stod(x.children[0].attributes[1].second)))), true};
    }
    for (auto & [g, m] : w.selections) targets.push_back(g);
  }
  const auto members = [&](const std::string & actor) {
    std::vector<std::string> r;
    for (int m : w.members(actor)) r.push_back(w.all[static_cast<std::size_t>(m)].name);
    return r;
  };
  const auto kind = [&](const std::string & name) {
    for (auto & p : w.all)
      if (p.name == name) return p.kind;
    return std::string();
  };
  const auto box = [&](const std::string & name) {
    for (auto & p : w.all)
      if (p.name == name) return p.box;
    return traffic_simulator_msgs::msg::BoundingBox();
  };
  // the environment simulator knows the entities added so far
  std::size_t done = 0, off = 0;
  const auto check = [&](std::size_t frame) {
    remote::requests().clear();
    stage.moves.clear();
    std::map<std::string, std::pair<Pose, bool>> seen;
    for (auto & p : w.all)
      stage.motion[p.name] = [&, name = p.name](Plugin & plugin) { seen[name] = {plugin.CanonicalizedEntityStatus_->getMapPose(), plugin.CanonicalizedEntityStatus_->isInLanelet()}; };
    stage.run.frame();
    std::map<std::string, Pose> sent;
    std::size_t updates = 0;
    for (auto & q : remote::requests()) {
      if (!q.has_update_entity_status()) continue;
      ++updates;
      for (auto & status : q.update_entity_status().status()) {
        c.require(!sent.count(status.name()), status.name(), " is sent twice");
        sent[status.name()] = of(status.pose());
      }
    }
    c.require(updates == 1, "the states are sent ", updates, " times in a frame");
    c.require(sent.size() == places.size(), "at the update ", frame, ", the states of ", sent.size(), " entities are sent instead of ", places.size());
    for (auto & [name, place] : places) {
      c.require(sent.count(name), "the state of ", name, " is not sent");
      const auto & is = sent.at(name);
      Place shown;
      shown.pose = is;
      const double distance = std::hypot(is.position.x - place.pose.position.x, is.position.y - place.pose.position.y);
      const bool exact = place.exact;
      c.require(distance < 1e-6, "at the update ", frame, ", ", name, " is at ", shown.describe(), " instead of ", place.describe());
      if (exact) {
        c.require(std::abs(is.position.z - place.pose.position.z) < 1e-6 && apart(is.orientation, place.pose.orientation) < 1e-6, "at the update ", frame, ", ", name, " is at ", shown.describe(), " instead of ", place.describe());
        continue;
      }
      // on a lane that is close enough, the lane determines height and slope
      const bool untouched = std::abs(is.position.z - place.pose.position.z) < 1e-6 && apart(is.orientation, place.pose.orientation) < 1e-6;
      const bool turned_away = !place.tilted && std::abs(std::remainder(yawOf(is.orientation) - yawOf(place.pose.orientation), 2 * M_PI)) > 0.2;
      const bool away = fromLanes(*w.net, place.pose) > box(name).dimensions.y / 2 + 3;
      c.require(untouched || (!away && !turned_away), "at the update ", frame, ", ", name, " is at ", shown.describe(), " instead of ", place.describe());
      c.label(away ? "off the lanes" : "near a lane");
      off += away;
      if (kind(name) != "miscellaneous") {
        c.require(seen.count(name), name, " is not updated");
        c.require(!(away && seen.at(name).second), name, " is off the lanes, but on one");
      }
    }
    for (auto & [name, _] : seen) c.require(places.count(name), name, " is updated");
  };
  check(0);
  for (std::size_t step = 1, steps = s.length(3, 10); step <= steps; ++step) {
    for (std::size_t k = s.length(1, 2); k-- > 0;) {
      const auto target = s.pick(targets);
      const auto who = members(target);
      std::size_t there = 0;
      for (auto & n : who) there += places.count(n);
      // where to
      const auto where = [&](const std::vector<std::string> & who, bool & possible) {
        Place place;
        std::vector<std::string> others;
        for (auto & [n, _] : places)
          if (!std::count(who.begin(), who.end(), n)) others.push_back(n);
        possible = true;
        switch (s.index(others.empty() ? 2 : 3)) {
          case 0: {
            auto p = anywhere(s, *w.net);
            double h = 0, pitch = 0, roll = 0;
            Xml x("LanePosition", {{"roadId", ""}, {"laneId", std::to_string(p.lanelet_id)}, {"s", num(p.s)}, {"offset", num(p.offset)}});
            p.rpy.x = p.rpy.y = p.rpy.z = 0;
            if (s.chance(60)) {
              x.add(orientation(s, "relative", h, pitch, roll));
              p.rpy.x = roll, p.rpy.y = pitch, p.rpy.z = h;
            }
            place.pose = ts::pose::toMapPose(CanonicalizedLaneletPose(p));
            place.exact = true;
            c.label("to a lane");
            return std::make_pair(Xml("Position", {}, {x}), place);
          }
          case 1: {
            place.pose = ts::pose::toMapPose(CanonicalizedLaneletPose(anywhere(s, *w.net)));
            const double reach = s.pick({0.3, 3.0, 30.0});
            place.pose.position.x += s.uniform(-reach, reach), place.pose.position.y += s.uniform(-reach, reach), place.pose.position.z += s.chance(30) ? s.uniform(-1, 1) : 0;
            const double h = s.chance(40) ? yawOf(place.pose.orientation) + s.uniform(-0.1, 0.1) : s.uniform(-3, 3), p = s.chance(30) ? s.uniform(-0.5, 0.5) : 0, r = s.chance(30) ? s.uniform(-0.5, 0.5) : 0;
            place.pose.orientation = turned(h, p, r);
            place.tilted = p != 0 || r != 0;
            Xml x("WorldPosition", {{"x", num(place.pose.position.x)}, {"y", num(place.pose.position.y)}, {"z", num(place.pose.position.z)}, {"h", num(h)}});
            if (p != 0) x.with("p", num(p));
            if (r != 0) x.with("r", num(r));
            c.label("to the world");
            return std::make_pair(Xml("Position", {}, {x}), place);
          }
          default: {
            const auto reference = s.pick(others);
            const auto & from = places.at(reference);
            // the attitude of a reference fitted to a lane is not known well enough
            possible = from.exact;
            const double reach = s.pick({1.0, 8.0, 40.0});
            const V d{s.uniform(-reach, reach), s.uniform(-reach, reach), s.chance(30) ? s.uniform(-1, 1) : 0};
            double h = 0, pitch = 0, roll = 0;
            Xml x("RelativeObjectPosition", {{"entityRef", reference}, {"dx", num(d.x)}, {"dy", num(d.y)}});
            if (d.z != 0) x.with("dz", num(d.z));
            if (s.chance(60)) x.add(orientation(s, "relative", h, pitch, roll));
            const V v = lanes::at(from.pose.position) + rotate(from.pose.orientation, d);
            place.pose.position.x = v.x, place.pose.position.y = v.y, place.pose.position.z = v.z;
            place.pose.orientation = times(from.pose.orientation, turned(h, pitch, roll));
            place.tilted = pitch != 0 || roll != 0;
            if (possible) c.label("to another entity");
            return std::make_pair(Xml("Position", {}, {x}), place);
          }
        }
      };
      bool possible = false;
      switch (s.index(4)) {
        case 0:
        case 1: {
          if (who.empty() || (there != 0 && there != who.size())) break;
          const auto [x, place] = where(who, possible);
          if (!possible) break;
          const Xml action("PrivateAction", {}, {Xml("TeleportAction", {}, {x})});
          c.log << step << ": " << target << " " << action.str();
          remote::requests().clear();
          Acting<osc::PrivateAction> act(stage.run, action, {target});
          act.action->start();
          c.require(act.action->endsImmediately(), "a teleportation takes time");
          std::multiset<std::string> spawned;
          for (auto & q : remote::requests()) {
            if (q.has_spawn_vehicle_entity()) spawned.insert("vehicle " + q.spawn_vehicle_entity().parameters().name());
            if (q.has_spawn_pedestrian_entity()) spawned.insert("pedestrian " + q.spawn_pedestrian_entity().parameters().name());
            if (q.has_spawn_misc_object_entity()) spawned.insert("miscellaneous " + q.spawn_misc_object_entity().parameters().name());
          }
          std::multiset<std::string> want;
          for (auto & n : who)
            if (!places.count(n)) want.insert(kind(n) + " " + n);
          c.require(spawned == want, spawned.size(), " entities are spawned instead of ", want.size());
          for (auto & n : who) places[n] = place;
          ++done;
          break;
        }
        case 2: {
          const auto [x, place] = where(who, possible);
          if (!possible) break;
          const auto action = addEntity(target, x);
          c.log << step << ": " << action.str();
          if (who.size() != 1) break;
          Acting<osc::GlobalAction> act(stage.run, action, {});
          if (there) {
            VF_THROWS(openscenario_interpreter::SemanticError, act.action->start());
            c.label("added twice");
          } else {
            act.action->start();
            places[who.front()] = place;
            c.label("added");
            ++done;
          }
          break;
        }
        default: {
          if (who.empty() || there != who.size() || s.chance(40)) break;
          const auto action = deleteEntity(target);
          c.log << step << ": " << action.str();
          remote::requests().clear();
          Acting<osc::GlobalAction>(stage.run, action, {}).action->start();
          std::multiset<std::string> gone;
          for (auto & q : remote::requests())
            if (q.has_despawn_entity()) gone.insert(q.despawn_entity().name());
          c.require(gone == std::multiset<std::string>(who.begin(), who.end()), gone.size(), " entities are removed instead of ", who.size());
          for (auto & n : who) places.erase(n);
          c.label("deleted");
          ++done;
        }
      }
    }
    check(step);
  }
  if (done > 1 && off) c.nontrivial();
}

// ---------------------------------------------------------------- orders
namespace
{
Xml command(const std::string & x) { return Xml("UserDefinedAction", {}, {Xml("CustomCommandAction", {{"type", x}})}); }
bool close(const Pose & a, const Pose & b)
{
  return std::abs(a.position.x - b.position.x) < 1e-6 && std::abs(a.position.y - b.position.y) < 1e-6 && std::abs(a.position.z - b.position.z) < 1e-6 && apart(a.orientation, b.orientation) < 1e-6;
}
bool same(const std::vector<Pose> & a, const std::vector<Pose> & b)
{
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!close(a[i], b[i])) return false;
  return true;
}
std::string text(const std::vector<Pose> & v)
{
  std::string r = std::to_string(v.size()) + ":";
  for (auto & p : v) r += " (" + num(p.position.x) + " " + num(p.position.y) + ")";
  return r;
}
std::optional<bool> both(std::optional<bool> a, std::optional<bool> b)
{
  if ((a && !*a) || (b && !*b)) return false;
  if (!a || !b) return {};
  return true;
}
struct Ordered  // what an entity has been told
{
  bool known = false;
  ts::behavior::Request request = ts::behavior::Request::NONE;
  std::vector<Pose> goals;
  ts::lane_change::Parameter change;
  traffic_simulator_msgs::msg::PolylineTrajectory trajectory;
  Pose from;
  bool controlled = false;
  bool see_around = true;
  DynamicConstraints limits;
  std::optional<double> threshold;
};
}  // namespace

VF_PROP("orders", 1200, 160000)
{
  using ts::behavior::Request;
  namespace lc = ts::lane_change;
  auto generated = generate(s);
  c.log << generated->net->text << "\n" << generated->parts.document().str();
  Stage stage(std::move(generated));
  auto & w = *stage.world;
  std::map<std::string, Pose> places;
  std::map<std::string, Id> lane;
  std::map<std::string, std::string> kinds;
  std::vector<std::string> singles, names;
  {
    std::size_t next = 0;
    for (auto & p : w.all) {
      kinds[p.name] = p.kind;
      if (!p.added) continue;
      const auto & x = w.parts.init.children[next++].children[0].children[0].children[0].children[0];
      lane[p.name] = std::stol(x.attributes[1].second);
      places[p.name] = ts::pose::toMapPose(CanonicalizedLaneletPose(pose(lane[p.name], std::stod(x.attributes[2].second), std::stod(x.attributes[3].second), std::stod(x.children[0].attributes[1].second))));
      if (p.kind != "miscellaneous") singles.push_back(p.name);
    }
  }
  const auto members = [&](const std::string & actor) {
    std::vector<std::string> r;
    for (int m : w.members(actor)) r.push_back(w.all[static_cast<std::size_t>(m)].name);
    return r;
  };
  names = singles;
  for (auto & [g, m] : w.selections) {
    bool fine = !m.empty();
    for (auto & n : members(g)) fine = fine && std::count(singles.begin(), singles.end(), n);
    if (fine) names.push_back(g);
  }
  if (singles.empty()) return;
  std::map<std::string, Ordered> orders;
  struct Going
  {
    std::string action;
    std::vector<std::string> actors;
    std::map<std::string, bool> done;
    bool closed = false, first = true;
    std::function<bool()> accomplished;
    std::shared_ptr<void> keep;
  };
  std::vector<Going> going;
  std::size_t checks = 0, ended = 0;
  const auto anyPlace = [&](Pose & at) {
    auto p = anywhere(s, *w.net);
    at = ts::pose::toMapPose(CanonicalizedLaneletPose(p));
    return position(p);
  };
  for (std::size_t step = 0, steps = s.length(2, 10); step < steps; ++step) {
    const auto actor = s.pick(names);
    const auto who = members(actor);
    switch (s.index(7)) {
      case 0:
      case 1: {  // change lanes
        const double offset = s.chance(40) ? s.uniform(-1, 1) : 0, value = s.uniform(0.5, 20);
        const auto shape = s.pick({std::string("linear"), std::string("cubic")}), dimension = s.pick({std::string("rate"), std::string("time"), std::string("distance")});
        Xml x("LaneChangeAction");
        if (offset != 0 || s.boolean()) x.with("targetLaneOffset", num(offset));
        x.add(Xml("LaneChangeActionDynamics", {{"dynamicsShape", shape}, {"dynamicsDimension", dimension}, {"value", num(value)}}));
        Id to = 0;
        if (s.chance(40)) {
          to = s.pick(w.net->ids);
          x.add(Xml("LaneChangeTarget", {}, {Xml("AbsoluteTargetLane", {{"value", std::to_string(to)}})}));
        } else {
          const auto reference = s.pick(singles);
          const int shift = static_cast<int>(s.integer(-2, 2));
          to = lane.at(reference);
          for (int k = 0; k < std::abs(shift) && to; ++k) to = shift > 0 ? (w.net->lanes.at(to).left) : (w.net->lanes.at(to).right);
          x.add(Xml("LaneChangeTarget", {}, {Xml("RelativeTargetLane", {{"entityRef", reference}, {"value", std::to_string(shift)}})}));
          if (!to && s.chance(85)) break;
          c.label(to ? "relative lane" : "no such lane");
        }
        x = Xml("PrivateAction", {}, {Xml("LateralAction", {}, {x})});
        c.log << step << ": " << actor << " " << x.str();
        auto act = std::make_shared<Acting<osc::PrivateAction>>(stage.run, x, std::vector<std::string>{actor});
        if (!to) {
          VF_THROWS(common::SemanticError, act->action->start());
          return;  // the scenario is over
        }
        act->action->start();
        for (auto & n : who) {
          if (kinds[n] != "vehicle") continue;  // others do not change lanes
          auto & o = orders[n];
          o.known = true;
          o.request = Request::LANE_CHANGE;
          o.change = lc::Parameter(lc::AbsoluteTarget(to, offset), shape == "linear" ? lc::TrajectoryShape::LINEAR : lc::TrajectoryShape::CUBIC,
            lc::Constraint(dimension == "rate" ? lc::Constraint::Type::LATERAL_VELOCITY : dimension == "time" ? lc::Constraint::Type::TIME : lc::Constraint::Type::LONGITUDINAL_DISTANCE, value));
          Plugin::action_of[n] = "lane_change";
        }
        Going g;
        g.action = "lane_change", g.actors = {actor}, g.first = false, g.keep = act;
        g.accomplished = [act] { return act->action->as<osc::LateralAction>().as<osc::LaneChangeAction>().accomplished(); };
        going.push_back(std::move(g));
        c.label("lane change");
        break;
      }
      case 2: {  // go somewhere
        Pose at;
        Xml x("PrivateAction", {}, {Xml("RoutingAction", {}, {Xml("AcquirePositionAction", {}, {anyPlace(at)})})});
        c.log << step << ": " << actor << " " << x.str();
        Acting<osc::PrivateAction> act(stage.run, x, {actor});
        act.action->start();
        c.require(act.action->endsImmediately(), "acquiring a position takes time");
        for (auto & n : who) {
          auto & o = orders[n];
          o.known = true, o.request = Request::FOLLOW_LANE, o.goals = {at};
          Plugin::action_of.erase(n);
        }
        c.label("position");
        break;
      }
      case 3: {  // go along a route
        std::vector<Pose> goals;
        Xml route("Route", {{"name", "r"}, {"closed", "false"}}, {Xml("ParameterDeclarations")});
        for (std::size_t k = s.length(2, 4); k-- > 0;) {
          goals.emplace_back();
          route.add(Xml("Waypoint", {{"routeStrategy", "shortest"}}, {anyPlace(goals.back())}));
        }
        Xml x("PrivateAction", {}, {Xml("RoutingAction", {}, {Xml("AssignRouteAction", {}, {route})})});
        bool one = true;
        for (auto & n : who) one = one && kinds[n] == kinds[who.front()];
        c.log << step << ": " << actor << " " << x.str();
        if (!one) {
          VF_THROWS(openscenario_interpreter::SemanticError, (Acting<osc::PrivateAction>(stage.run, x, {actor})));
          return;
        }
        Acting<osc::PrivateAction> act(stage.run, x, {actor});
        act.action->start();
        c.require(act.action->endsImmediately(), "assigning a route takes time");
        for (auto & n : who) {
          auto & o = orders[n];
          o.known = true, o.request = Request::FOLLOW_LANE, o.goals = goals;
          Plugin::action_of.erase(n);
        }
        c.label("route");
        break;
      }
      case 4: {  // follow a trajectory
        const double offset = s.chance(40) ? s.uniform(0, 5) : 0, scale = s.chance(40) ? s.uniform(0.5, 2) : 1, start = s.chance(30) ? s.uniform(0, 3) : 0;
        const bool absolute = s.chance(4), position_mode = s.boolean(), closed = s.chance(25);
        Xml polyline("Polyline");
        traffic_simulator_msgs::msg::PolylineTrajectory t;
        double time = 0;
        for (std::size_t k = s.length(2, 5); k-- > 0;) {
          traffic_simulator_msgs::msg::Vertex v;
          time += s.uniform(1, 5);
          Xml x("Vertex");
          v.time = cast::nan;
          if (s.chance(60)) x.with("time", num(time)), v.time = offset + scale * time;
          x.add(anyPlace(v.position));
          polyline.add(x);
          t.shape.vertices.push_back(v);
        }
        for (std::size_t k = 1; k < t.shape.vertices.size(); ++k)  // places one can go between
          if (norm2d(lanes::at(t.shape.vertices[k].position.position) - lanes::at(t.shape.vertices[k - 1].position.position)) < 0.5) return;
        for (auto & n : who)
          if (norm2d(lanes::at(places.at(n).position) - lanes::at(t.shape.vertices[0].position.position)) < 0.5) return;
        t.initial_distance_offset = start, t.dynamic_constraints_ignorable = position_mode, t.closed = closed;
        t.base_time = stage.run.time();
        Xml follow("FollowTrajectoryAction", {{"initialDistanceOffset", num(start)}}, {Xml("TimeReference", {}, {Xml("Timing", {{"domainAbsoluteRelative", absolute ? "absolute" : "relative"}, {"offset", num(offset)}, {"scale", num(scale)}})}),
          Xml("TrajectoryFollowingMode", {{"followingMode", position_mode ? "position" : "follow"}}), Xml("TrajectoryRef", {}, {Xml("Trajectory", {{"closed", closed ? "true" : "false"}, {"name", "t"}}, {Xml("ParameterDeclarations"), Xml("Shape", {}, {polyline})})})});
        Xml x("PrivateAction", {}, {Xml("RoutingAction", {}, {follow})});
        c.log << step << ": " << actor << " " << x.str();
        if (absolute) {  // refused: not supported
          VF_THROWS(common::Error, (Acting<osc::PrivateAction>(stage.run, x, {actor})));
          return;
        }
        auto act = std::make_shared<Acting<osc::PrivateAction>>(stage.run, x, std::vector<std::string>{actor});
        act->action->start();
        c.require(!act->action->endsImmediately(), "a trajectory is followed in no time");
        for (auto & n : who) {
          auto & o = orders[n];
          o.known = true, o.request = Request::FOLLOW_POLYLINE_TRAJECTORY, o.trajectory = t, o.from = places.at(n);
          Plugin::action_of[n] = "follow_polyline_trajectory";
        }
        Going g;
        g.action = "follow_polyline_trajectory", g.actors = {actor}, g.closed = closed, g.keep = act;
        g.accomplished = [act] { return act->action->as<osc::RoutingAction>().as<osc::FollowTrajectoryAction>().accomplished(); };
        going.push_back(std::move(g));
        c.label(who.size() > 1 ? "trajectory of several" : "trajectory");
        break;
      }
      case 5: {  // walk on
        const auto x = command(s.boolean() ? "WalkStraightAction()" : "WalkStraightAction");
        bool walkers = true;
        for (auto & n : who) walkers = walkers && kinds[n] == "pedestrian";
        c.log << step << ": " << actor << " " << x.str();
        Acting<osc::UserDefinedAction> act(stage.run, x, {actor});
        if (!walkers) {
          VF_THROWS(common::SemanticError, act.action->start());
          return;
        }
        act.action->start();
        for (auto & n : who) {
          orders[n].known = true, orders[n].request = Request::WALK_STRAIGHT;
          Plugin::action_of.erase(n);
        }
        c.label("walk");
        break;
      }
      default: {  // another controller
        Ordered o;
        Xml properties("Properties");
        const auto property = [&](const char * name, double usual, unsigned percent) {
          const double v = s.chance(percent) ? s.uniform(0.5, 9) : usual;
          if (v != usual) properties.add(Xml("Property", {{"name", name}, {"value", num(v)}}));
          return v;
        };
        o.limits.max_speed = property("maxSpeed", 50, 50), o.limits.max_acceleration = property("maxAcceleration", 10, 50), o.limits.max_acceleration_rate = property("maxAccelerationRate", 3, 50);
        o.limits.max_deceleration = property("maxDeceleration", 10, 50), o.limits.max_deceleration_rate = property("maxDecelerationRate", 3, 50);
        if (s.boolean()) {
          o.see_around = s.boolean();
          properties.add(Xml("Property", {{"name", "isBlind"}, {"value", o.see_around ? "false" : "true"}}));
        }
        if (s.boolean()) o.threshold = property("lateralCollisionThreshold", 0.25, 100);
        Xml x("PrivateAction", {}, {Xml("ControllerAction", {}, {Xml("AssignControllerAction", {}, {Xml("Controller", {{"name", "c"}}, {Xml("ParameterDeclarations"), properties})}), Xml("OverrideControllerValueAction")})});
        c.log << step << ": " << actor << " " << x.str();
        Acting<osc::PrivateAction> act(stage.run, x, {actor});
        act.action->start();
        for (auto & n : who) {
          auto & is = orders[n];
          is.controlled = true, is.see_around = o.see_around, is.limits = o.limits;
          if (kinds[n] == "vehicle") is.threshold = o.threshold;
        }
        c.label("controller");
      }
    }
    // what they got
    std::set<std::string> seen;
    for (auto & n : singles)
      stage.motion[n] = [&, n = n](Plugin & p) {
        seen.insert(n);
        if (!orders.count(n)) return;
        const auto & o = orders.at(n);
        ++checks;
        if (o.controlled) {
          c.require(p.BehaviorParameter_.see_around == o.see_around, n, " sees around: ", p.BehaviorParameter_.see_around);
          c.require(same(p.BehaviorParameter_.dynamic_constraints, o.limits), "the limits of ", n, " are ", text(p.BehaviorParameter_.dynamic_constraints), " instead of ", text(o.limits));
          if (kinds[n] == "vehicle") c.require(p.LateralCollisionThreshold_ == o.threshold, "the lateral threshold of ", n, " is ", p.LateralCollisionThreshold_.value_or(-1), " instead of ", o.threshold.value_or(-1));
        }
        if (!o.known) return;
        c.require(p.Request_ == o.request, "the request to ", n, " is number ", static_cast<int>(p.Request_), " instead of ", static_cast<int>(o.request));
        if (o.request == Request::FOLLOW_LANE) {
          c.require(same(p.GoalPoses_, o.goals), "the goals of ", n, " are ", text(p.GoalPoses_), " instead of ", text(o.goals));
          // the route begins where the entity is and goes on from lane to lane
          const auto & r = p.RouteLanelets_;
          c.require(!r.empty() && r.front() == lane.at(n), "the route of ", n, " begins at ", r.empty() ? 0 : r.front(), ", not at ", lane.at(n));
          for (std::size_t k = 1; k < r.size(); ++k) {
            const auto & l = w.net->lanes.at(r[k - 1]);
            c.require(std::count(l.next.begin(), l.next.end(), r[k]) || l.left == r[k] || l.right == r[k], "the route of ", n, " goes from ", r[k - 1], " to ", r[k]);
          }
        } else if (o.request == Request::LANE_CHANGE) {
          const auto & q = p.LaneChangeParameters_;
          c.require(q.target.lanelet_id == o.change.target.lanelet_id && q.target.offset == o.change.target.offset, n, " changes to ", q.target.lanelet_id, " at ", q.target.offset, " instead of ", o.change.target.lanelet_id, " at ", o.change.target.offset);
          c.require(q.trajectory_shape == o.change.trajectory_shape && q.constraint.type == o.change.constraint.type && q.constraint.value == o.change.constraint.value, n, " changes lanes with the constraint number ", static_cast<int>(q.constraint.type), " of ", q.constraint.value, " instead of ",
            static_cast<int>(o.change.constraint.type), " of ", o.change.constraint.value);
        } else if (o.request == Request::FOLLOW_POLYLINE_TRAJECTORY) {
          c.require(p.PolylineTrajectory_ != nullptr, n, " has no trajectory");
          const auto & q = *p.PolylineTrajectory_;
          const auto nearly = [](double a, double b) { return std::isnan(a) ? std::isnan(b) : std::abs(a - b) < 1e-9; };
          c.require(q.shape.vertices.size() == o.trajectory.shape.vertices.size() + 1, "the trajectory of ", n, " has ", q.shape.vertices.size(), " vertices instead of ", o.trajectory.shape.vertices.size() + 1);
          c.require(std::isnan(q.shape.vertices[0].time) && close(q.shape.vertices[0].position, o.from), "the trajectory of ", n, " does not begin where it is");
          for (std::size_t k = 1; k < q.shape.vertices.size(); ++k) {
            const auto &a = q.shape.vertices[k], &b = o.trajectory.shape.vertices[k - 1];
            c.require(nearly(a.time, b.time) && close(a.position, b.position), "the vertex ", k, " of the trajectory of ", n, " is at ", a.time, " ", text({a.position}), " instead of ", b.time, " ", text({b.position}));
          }
          c.require(q.closed == o.trajectory.closed && q.dynamic_constraints_ignorable == o.trajectory.dynamic_constraints_ignorable && q.initial_distance_offset == o.trajectory.initial_distance_offset && nearly(q.base_time, o.trajectory.base_time), "the trajectory of ", n, " is another one: base time ", q.base_time,
            " instead of ", o.trajectory.base_time);
        }
      };
    stage.run.frame();
    for (auto & n : singles) c.require(seen.count(n), n, " is not updated");
    // some go over to something else
    for (auto & n : singles)
      if (s.chance(25)) Plugin::action_of[n] = "follow_lane";
    for (auto & g : going) {
      bool want = !g.closed && !g.first, sure = true;
      for (auto & a : g.actors) {
        std::size_t busy = 0;
        const auto m = members(a);
        for (auto & n : m) busy += Plugin::action_of.count(n) && Plugin::action_of.at(n) == g.action;
        // a selection of which some are done: unspecified
        if (!g.done[a] && busy && busy != m.size()) sure = false;
        if (!g.closed && !g.first && !busy) g.done[a] = true;
        want = want && g.done[a];
      }
      const bool is = g.accomplished();
      if (!sure) {
        for (auto & a : g.actors) g.done[a] = is;
      } else {
        c.require(is == want, "after the update ", step, ", ", g.action, " of ", g.actors.front(), " is accomplished: ", is);
        ended += want;
      }
      g.first = false;
    }
  }
  if (checks > 1 && ended) c.nontrivial();
}

// ---------------------------------------------------------------- limits
VF_PROP("limits", 1000, 150000)
{
  auto world = generate(s);
  struct Range
  {
    double low, high;
    std::optional<bool> holds(double x) const
    {
      if (std::abs(x - high - 0.01) < 1e-9 || std::abs(low - 0.01 - x) < 1e-9) return {};
      return low - 0.01 <= x && x <= high + 0.01;
    }
  };
  std::map<std::string, std::array<Range, 3>> ranges;
  for (std::size_t i = 0; i < world->all.size(); ++i) {
    auto & p = world->all[i];
    if (p.kind != "vehicle") continue;
    const double v = s.uniform(5, 40), a = s.uniform(1, 5), d = s.uniform(1, 5);
    for (auto & object : world->parts.entities.children) {
      if (object.name != "ScenarioObject" || object.attributes[0].second != p.name) continue;
      object.children[0].children[1].attributes = {{"maxSpeed", num(v)}, {"maxAcceleration", num(a)}, {"maxDeceleration", num(d)}};
      Range jerk{-std::numeric_limits<double>::max(), std::numeric_limits<double>::max()};
      if (s.chance(60)) {
        Xml properties("Properties");
        if (s.chance(70)) properties.add(Xml("Property", {{"name", "maxJerk"}, {"value", num(jerk.high = s.uniform(0.5, 4))}}));
        if (s.chance(70)) properties.add(Xml("Property", {{"name", "minJerk"}, {"value", num(jerk.low = -s.uniform(0.5, 4))}}));
        object.add(Xml("ObjectController", {}, {Xml("Controller", {{"name", ""}}, {Xml("ParameterDeclarations"), properties})}));
      }
      ranges[p.name] = {Range{-v, v}, Range{-d, a}, jerk};
    }
  }
  c.log << world->net->text << "\n" << world->parts.document().str();
  Stage stage(std::move(world));
  std::size_t calm = 0;
  for (std::size_t frame = s.length(1, 8); frame-- > 0;) {
    std::optional<bool> fine = true;
    for (auto & [n, _] : stage.plugins) {
      std::array<double, 3> x{0, 0, 0};
      const bool wild = s.chance(6);
      for (std::size_t k = 0; k < 3; ++k) {
        const Range r = ranges.count(n) ? ranges.at(n)[k] : Range{-20, 20};
        const double low = std::max(r.low, -30.0), high = std::min(r.high, 30.0);
        x[k] = s.uniform(low, high);
        if (s.chance(15)) x[k] = high + 0.009;
        else if (s.chance(15)) x[k] = low - 0.009;
        if (wild && s.chance(50)) x[k] = s.boolean() ? high + s.pick({0.0101, 0.02, 1.0, 50.0}) : low - s.pick({0.0101, 0.02, 1.0, 50.0});
        if (ranges.count(n)) fine = both(fine, ranges.at(n)[k].holds(x[k]));
      }
      c.log << frame << ": " << n << " speed " << x[0] << " acceleration " << x[1] << " jerk " << x[2] << "\n";
      stage.motion[n] = [x](Plugin & p) {
        auto & status = *p.CanonicalizedEntityStatus_;
        auto twist = geometry_msgs::msg::Twist();
        twist.linear.x = x[0];
        status.setTwist(twist);
        status.setLinearAcceleration(x[1]);
        status.setLinearJerk(x[2]);
      };
    }
    bool thrown = false;
    try {
      stage.run.frame();
    } catch (const common::SpecificationViolation &) {
      thrown = true;
    }
    if (!fine) return;
    c.require(thrown != *fine, thrown ? "everything is within the limits, but that is denied" : "something is beyond the limits, but that passes");
    c.label(thrown ? "refused" : "accepted");
    if (thrown) {
      if (calm) c.nontrivial();
      return;
    }
    ++calm;
  }
}
