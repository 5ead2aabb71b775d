// The simulator's interface: entities come, change and go as asked, sources fill their area, sinks clear theirs.
#include "vf.hpp"
#include "interp_pch.hpp"
#include "scenario.hpp"
#include "lanes.hpp"
#include <traffic_simulator/api/api.hpp>
#include <traffic_simulator/traffic/traffic_source.hpp>

namespace
{
using namespace lanes;
using geometry_msgs::msg::Pose;
namespace ts = traffic_simulator;
namespace ms = traffic_simulator_msgs::msg;
using Type = ms::EntityType;

Pose pose2(double x, double y, double yaw)
{
  Pose p;
  p.position.x = x, p.position.y = y;
  p.orientation.w = std::cos(yaw / 2), p.orientation.z = std::sin(yaw / 2);
  return p;
}
std::string text(const Pose & p)
{
  std::ostringstream o;
  o << std::setprecision(9) << "(" << p.position.x << ", " << p.position.y << ", " << p.position.z << "; " << yawOf(p.orientation) << ")";
  return o.str();
}
template <typename F> bool throws(F && f)
{
  try {
    f();
  } catch (const common::Error &) {
    return true;
  }
  return false;
}
bool same(const Pose & a, const Pose & b, double eps = 1e-6)
{
  return norm(at(a.position) - at(b.position)) < eps && std::abs(wrap(yawOf(a.orientation) - yawOf(b.orientation))) < 100 * eps;
}

ms::BoundingBox anyBox(vf::Src & s)
{
  ms::BoundingBox b;
  b.dimensions.x = s.pick({4.0, 0.8, 2.0, 7.5}), b.dimensions.y = s.pick({1.8, 0.8, 2.5}), b.dimensions.z = 1.5;
  b.center.x = s.pick({0.0, 1.2, -0.4}), b.center.y = s.pick({0.0, 0.0, 0.1}), b.center.z = 0.75;
  return b;
}

ms::VehicleParameters vehicle(vf::Src & s)
{
  ms::VehicleParameters p;
  p.subtype.value = s.pick({ms::EntitySubtype::CAR, ms::EntitySubtype::TRUCK, ms::EntitySubtype::BUS});
  p.bounding_box = anyBox(s);
  p.axles.front_axle.track_width = p.axles.rear_axle.track_width = 1.6;
  p.axles.front_axle.position_x = 2.6, p.axles.front_axle.max_steering = 0.6, p.axles.front_axle.wheel_diameter = 0.7;
  p.performance.max_speed = 50, p.performance.max_acceleration = 10, p.performance.max_deceleration = 10, p.performance.max_acceleration_rate = p.performance.max_deceleration_rate = 3;
  p.name = "car";
  return p;
}
ms::PedestrianParameters pedestrian(vf::Src & s)
{
  ms::PedestrianParameters p;
  p.subtype.value = ms::EntitySubtype::PEDESTRIAN;
  p.bounding_box = anyBox(s);
  p.bounding_box.dimensions.x = 0.8, p.bounding_box.center.x = 0;
  p.name = "walker";
  return p;
}
ms::MiscObjectParameters misc(vf::Src & s)
{
  ms::MiscObjectParameters p;
  p.subtype.value = ms::EntitySubtype::UNKNOWN;
  p.bounding_box = anyBox(s);
  p.name = "box";
  return p;
}

std::vector<V> corners(const Pose & p, const ms::BoundingBox & b)
{
  std::vector<V> out;
  const double c = std::cos(yawOf(p.orientation)), d = std::sin(yawOf(p.orientation));
  for (auto [i, j] : {std::pair(1, 1), std::pair(-1, 1), std::pair(-1, -1), std::pair(1, -1)}) {
    const double x = b.center.x + i * b.dimensions.x / 2, y = b.center.y + j * b.dimensions.y / 2;
    out.push_back({p.position.x + c * x - d * y, p.position.y + d * x + c * y, 0});
  }
  return out;
}
// how far apart two boxes are along the axis that separates them best; negative if none does
double gap(const std::vector<V> & a, const std::vector<V> & b)
{
  double best = -1e9;
  for (auto * p : {&a, &b})
    for (std::size_t i = 0; i < 2; ++i) {
      const V e = (*p)[i + 1] - (*p)[i];
      const double n = std::hypot(e.x, e.y);
      double lo[2] = {1e18, 1e18}, hi[2] = {-1e18, -1e18};
      int k = 0;
      for (auto * q : {&a, &b}) {
        for (auto & v : *q) {
          const double t = (v.x * e.x + v.y * e.y) / n;
          lo[k] = std::min(lo[k], t), hi[k] = std::max(hi[k], t);
        }
        ++k;
      }
      best = std::max({best, lo[0] - hi[1], lo[1] - hi[0]});
    }
  return best;
}
double radiusOf(const ms::BoundingBox & b)
{
  double r = 0;
  for (auto & v : corners(Pose(), b)) r = std::max(r, std::hypot(v.x, v.y));
  return r;
}

void plugins()
{
  auto & all = pluginlib::registry<entity_behavior::BehaviorPluginBase>();
  for (const std::string & name : {ts::VehicleBehavior::defaultBehavior(), ts::PedestrianBehavior::defaultBehavior(), std::string("other/Behavior")})
    all[name] = [] { return std::make_shared<scenario::Plugin>(); };
  scenario::Plugin::action.clear(), scenario::Plugin::action_of.clear(), scenario::Plugin::move = nullptr;
}

struct Entity
{
  std::uint8_t type;
  int subtype;
  ms::BoundingBox box;
  Pose pose;
  double speed = 0, acceleration = 0, jerk = 0;
  std::string behavior, model;
};
}  // namespace

// ---------------------------------------------------------------- entities and sinks
VF_PROP("world", 2500, 400000)
{
  plugins();
  shim::now_ns() = 1000000000;
  roads::Options o;
  o.max_roads = 4, o.max_lanes = 2, o.crosswalks = o.slopes = false;  // poses on slopes are inclined: T03
  auto net = roads::generate(s, o);
  minilanelet::builder() = [&](auto &&...) { return net->map; };
  net->activate();
  c.log << net->text << "\n";
  static int count = 0;
  const auto map = "world-" + std::to_string(++count) + ".osm";
  std::ofstream(scenario::scratch() + "/map/" + map);
  std::set<std::uint8_t> sinkable;
  for (auto t : {Type::VEHICLE, Type::PEDESTRIAN, Type::MISC_OBJECT})
    if (s.chance(40)) sinkable.insert(t);
  for (auto t : sinkable) c.log << "sinks for " << int(t) << "\n";
  remote::requests().clear(), remote::answer() = nullptr;
  auto node = std::make_shared<rclcpp_lifecycle::LifecycleNode>("world", rclcpp::NodeOptions());
  const double rate = s.pick({30.0, 20.0, 50.0});
  double factor = s.pick({1.0, 0.5, 2.0});
  ts::Configuration configuration(scenario::scratch() + "/map", map, scenario::scratch() + "/scenario.xosc", sinkable);
  ts::API api(node, configuration, factor, rate);
  std::filesystem::remove(scenario::scratch() + "/map/" + map);

  std::vector<V> ends;
  for (auto & [id, lane] : net->lanes)
    if (lane.next.empty()) {
      const auto p = ts::pose::toMapPose(pose(id, lane.length));
      ends.push_back(at(p.position));
    }

  std::map<std::string, Entity> world;
  double simulated = 0, started = std::numeric_limits<double>::quiet_NaN();
  const std::vector<std::string> names{"a", "b", "c", "d", "long name", "e"};
  std::size_t spawned = 0, gone = 0, sunk = 0, frames = 0, refused = 0;

  // requests of one kind since the last step
  auto requests = [&](auto has) {
    std::vector<simulation_api_schema::SimulationRequest> out;
    for (auto & r : remote::requests())
      if (has(r)) out.push_back(r);
    return out;
  };
  auto anyPose = [&]() -> std::pair<std::optional<ts::CanonicalizedLaneletPose>, Pose> {
    if (s.chance(50)) {
      const auto p = somewhere(s, *net, net->ids);
      const ts::CanonicalizedLaneletPose q(p);
      return {q, static_cast<Pose>(q)};
    }
    if (!ends.empty() && s.chance(40)) {
      const auto & e = s.pick(ends);
      const double a = s.uniform(-M_PI, M_PI), d = s.uniform(0, 2);
      auto p = pose2(e.x + d * std::cos(a), e.y + d * std::sin(a), s.uniform(-3, 3));
      p.position.z = e.z;
      return {{}, p};
    }
    if (!world.empty() && s.chance(80)) {
      const auto & p = std::next(world.begin(), static_cast<long>(s.index(world.size())))->second.pose;
      return {{}, pose2(p.position.x + s.uniform(-6, 6), p.position.y + s.uniform(-4, 4), s.uniform(-3, 3))};
    }
    return {{}, pose2(s.uniform(-500, 500), s.uniform(-500, 500), s.uniform(-3, 3))};
  };
  auto check = [&](std::size_t step) {
    const auto all = api.getEntityNames();
    std::multiset<std::string> got(all.begin(), all.end()), want;
    for (auto & [n, e] : world) want.insert(n);
    c.require(got == want, "step ", step, ": the entities are not those that were spawned and not despawned: ", got.size(), " instead of ", want.size());
    for (auto & n : names) {
      const bool there = world.count(n);
      c.require(api.isEntityExist(n) == there, "step ", step, ": ", n, there ? " is said not to exist" : " is said to exist");
      c.require((api.getEntityPointer(n) != nullptr) == there, "step ", step, ": a pointer to ", n, there ? " is missing" : " is there");
      if (!there) c.require(throws([&] { api.getEntity(n); }), "step ", step, ": getEntity gives ", n, ", which does not exist");
    }
    for (auto & [n, e] : world) {
      const auto & x = static_cast<const ts::API &>(api).getEntity(n);
      c.require(x.getName() == n, "step ", step, ": ", n, " is called ", x.getName());
      c.require(x.getEntityType().type == e.type, "step ", step, ": ", n, " is of type ", int(x.getEntityType().type));
      c.require(x.getEntitySubtype().value == e.subtype, "step ", step, ": ", n, " is of subtype ", int(x.getEntitySubtype().value));
      c.require(x.is<ts::entity::VehicleEntity>() == (e.type == Type::VEHICLE) && x.is<ts::entity::PedestrianEntity>() == (e.type == Type::PEDESTRIAN), "step ", step, ": ", n, " is of another class");
      c.require(same(x.getMapPose(), e.pose, 1e-5), "step ", step, ": ", n, " is at ", text(x.getMapPose()), " instead of ", text(e.pose));
      c.require(x.getBoundingBox().dimensions.x == e.box.dimensions.x && x.getBoundingBox().center.x == e.box.center.x && x.getBoundingBox().dimensions.y == e.box.dimensions.y, "step ", step, ": ", n, " has another box");
      c.require(std::abs(x.getCurrentTwist().linear.x - e.speed) < 1e-9 && std::abs(x.getCurrentAccel().linear.x - e.acceleration) < 1e-9, "step ", step, ": ", n, " moves at ", x.getCurrentTwist().linear.x, ", ", x.getCurrentAccel().linear.x, " instead of ", e.speed, ", ", e.acceleration);
    }
    c.require(!api.isAnyEgoSpawned() && !api.getFirstEgoName(), "step ", step, ": there is an ego");
    c.require(api.isNpcLogicStarted() == !std::isnan(started), "step ", step, ": whether the logic is started");
    const double time = simulated - started;
    c.require(std::isnan(time) ? std::isnan(api.getCurrentTime()) : std::abs(api.getCurrentTime() - time) < 1e-9, "step ", step, ": the time is ", api.getCurrentTime(), " instead of ", time);
  };
  c.require(requests([](auto & r) { return r.has_initialize(); }).size() == 1 && std::abs(remote::requests().front().initialize().step_time() - factor / rate) < 1e-12 && remote::requests().front().initialize().realtime_factor() == factor, "the simulator is not initialized as configured");

  for (std::size_t step = 0, n = s.length(3, 40); step < n; ++step) {
    remote::requests().clear();
    const auto kind = s.index(12);
    const std::string name = s.pick(names);
    const bool there = world.count(name);
    if (kind <= 2) {
      Entity e;
      const auto [lane, at_] = anyPose();
      e.pose = at_;
      e.model = s.pick({"", "model", "assets/car.prefab"});
      const std::string behavior = s.chance(70) ? "" : "other/Behavior";
      const auto what = s.index(3);
      c.log << step << ": spawn " << name << " (" << what << ") at " << text(e.pose) << (lane ? " on a lane" : "") << "\n";
      simulation_api_schema::SimulationRequest wanted;
      auto spawn = [&](const auto & parameters) {
        e.subtype = parameters.subtype.value, e.box = parameters.bounding_box;
        const auto make = [&] { return lane ? &api.spawn(name, *lane, parameters, behavior, e.model) : &api.spawn(name, e.pose, parameters, behavior, e.model); };
        if (there) {
          c.require(throws([&] { make(); }), "step ", step, ": a second ", name, " is spawned");
          c.require(remote::requests().empty(), "step ", step, ": the simulator is asked for a second ", name);
          ++refused;
          return;
        }
        auto * x = make();
        c.require(x == &api.getEntity(name), "step ", step, ": spawn gives another entity");
      };
      if (what == 0) {
        e.type = Type::VEHICLE;
        spawn(vehicle(s));
      } else if (what == 1) {
        e.type = Type::PEDESTRIAN;
        spawn(pedestrian(s));
      } else {
        e.type = Type::MISC_OBJECT;
        spawn(misc(s));
      }
      e.behavior = !behavior.empty() ? behavior : what == 0 ? ts::VehicleBehavior::defaultBehavior() : ts::PedestrianBehavior::defaultBehavior();
      if (!there) {
        ++spawned;
        c.require(remote::requests().size() == 1, "step ", step, ": ", remote::requests().size(), " requests to spawn ", name);
        const auto & r = remote::requests().front();
        auto told = [&](const auto & q) {
          Pose p;
          simulation_interface::toMsg(q.pose(), p);
          c.require(q.parameters().name() == name && q.asset_key() == e.model && same(p, e.pose, 1e-5), "step ", step, ": the simulator is told to spawn ", q.parameters().name(), " ", q.asset_key(), " at ", text(p), " instead of ", name, " ", e.model, " at ", text(e.pose));
          c.require(q.parameters().bounding_box().dimensions().x() == e.box.dimensions.x, "step ", step, ": the simulator is told another box");
        };
        c.require(r.has_spawn_vehicle_entity() == (what == 0) && r.has_spawn_pedestrian_entity() == (what == 1) && r.has_spawn_misc_object_entity() == (what == 2), "step ", step, ": the simulator is asked for another kind of entity");
        if (what == 0) told(r.spawn_vehicle_entity()), c.require(!r.spawn_vehicle_entity().is_ego(), "step ", step, ": an ego is asked for");
        if (what == 1) told(r.spawn_pedestrian_entity());
        if (what == 2) told(r.spawn_misc_object_entity());
        world[name] = e;
      }
    } else if (kind == 3) {
      c.log << step << ": despawn " << name << "\n";
      c.require(api.despawn(name) == there, "step ", step, ": despawn of ", name, there ? " fails" : ", which does not exist, succeeds");
      c.require(remote::requests().size() == (there ? 1 : 0) && (!there || remote::requests()[0].despawn_entity().name() == name), "step ", step, ": the simulator is not told to despawn ", name);
      gone += world.erase(name);
    } else if (kind == 4 && there) {
      auto & e = world[name];
      if (e.type == Type::MISC_OBJECT) {
        c.log << step << ": reset " << name << "\n";
        c.require(throws([&] { api.resetBehaviorPlugin(name, "other/Behavior"); }), "step ", step, ": the behaviour of an object is reset");
      } else {
        const std::string behavior = s.boolean() ? "other/Behavior" : e.type == Type::VEHICLE ? ts::VehicleBehavior::defaultBehavior() : ts::PedestrianBehavior::defaultBehavior();
        auto parameter = api.getEntity(name).getBehaviorParameter();
        parameter.dynamic_constraints.max_speed = 10 + static_cast<double>(step);
        api.getEntity(name).setBehaviorParameter(parameter);
        api.getEntity(name).setLinearJerk(e.jerk = s.uniform(-1, 1));
        c.log << step << ": reset " << name << " to " << behavior << "\n";
        api.resetBehaviorPlugin(name, behavior);
        e.behavior = behavior;
        const auto & x = api.getEntity(name);
        c.require(x.getBehaviorParameter().dynamic_constraints.max_speed == parameter.dynamic_constraints.max_speed, "step ", step, ": a reset changes the limits of ", name);
        c.require(x.getLinearJerk() == e.jerk, "step ", step, ": a reset changes the jerk of ", name);
        c.label("reset");
      }
    } else if (kind == 5 && there) {
      auto & e = world[name];
      if (s.boolean()) {
        const auto to = anyPose();
        c.log << step << ": " << name << " is set to " << text(to.second) << (to.first ? " on a lane" : "") << "\n";
        if (to.first) api.getEntity(name).setStatus(*to.first);
        else {
          c.require(throws([&] { api.getEntity(name).setMapPose(to.second); }), "step ", step, ": the map pose alone of ", name, " is set");
          api.getEntity(name).setStatus(to.second);
        }
        e.pose = to.second, e.speed = e.acceleration = 0;
      } else {
        e.speed = s.uniform(-3, 20), e.acceleration = s.uniform(-3, 3);
        c.log << step << ": " << name << " moves at " << e.speed << ", " << e.acceleration << "\n";
        api.getEntity(name).setLinearVelocity(e.speed), api.getEntity(name).setLinearAcceleration(e.acceleration);
      }
    } else if (kind == 6) {
      c.log << step << ": start\n";
      if (!std::isnan(started)) c.require(throws([&] { api.startNpcLogic(); }), "step ", step, ": the logic starts twice");
      else api.startNpcLogic(), started = simulated;
    } else if (kind == 7) {
      const double to = s.pick({0.5, 1.5, 0.0005, 0.0, -1.0, 0.001});
      c.log << step << ": factor " << to << "\n";
      const bool valid = to >= 0.001;
      if (s.boolean()) {
        c.require(api.setSimulationStepTime(to) == valid, "step ", step, ": the factor ", to, valid ? " is refused" : " is accepted");
      } else {
        std_msgs::msg::Float64 m;
        m.data = to;
        for (auto & callback : shim::topics<std_msgs::msg::Float64>()["/real_time_factor"].callbacks) callback.second(std::make_shared<std_msgs::msg::Float64>(m));
      }
      if (valid) factor = to;
      c.require(remote::requests().size() == (valid ? 1 : 0) && (!valid || std::abs(remote::requests()[0].update_step_time().simulation_step_time() - factor / rate) < 1e-12), "step ", step, ": the simulator is not told the step");
    } else if (kind == 8 && s.chance(15)) {
      c.log << step << ": despawn all\n";
      c.require(api.despawnEntities(), "step ", step, ": not all are despawned");
      std::multiset<std::string> told, want;
      for (auto & r : remote::requests()) told.insert(r.despawn_entity().name());
      for (auto & [k, e] : world) want.insert(k);
      c.require(told == want, "step ", step, ": the simulator is not told to despawn all");
      gone += world.size();
      world.clear();
    } else {
      // the simulator may change how entities move (where they are it only knows from here)
      std::map<std::string, Entity> moved;
      for (auto & [k, e] : world)
        if (s.chance(20)) {
          auto & m = moved[k] = e;
          m.speed = s.uniform(0, 5), m.acceleration = s.uniform(-1, 1);
          c.log << step << ": the simulator says " << k << " moves at " << m.speed << ", " << m.acceleration << "\n";
        }
      c.log << step << ": frame\n";
      const auto before = world;
      remote::answer() = [&](const simulation_api_schema::SimulationRequest & q, simulation_api_schema::SimulationResponse & r) {
        if (!q.has_update_entity_status()) return;
        for (auto & status : *r.mutable_update_entity_status()->mutable_status())
          if (auto i = moved.find(status.name()); i != moved.end()) {
            simulation_interface::toProto(i->second.pose, *status.mutable_pose());
            status.mutable_action_status()->mutable_twist()->mutable_linear()->set_x(i->second.speed);
            status.mutable_action_status()->mutable_accel()->mutable_linear()->set_x(i->second.acceleration);
          }
      };
      c.require(api.updateFrame(), "step ", step, ": the frame fails");
      remote::answer() = nullptr;
      ++frames;
      for (auto & [k, e] : moved) world[k] = e;
      // what the simulator was told
      const auto told = requests([](auto & r) { return r.has_update_entity_status(); });
      c.require(told.size() == 1, "step ", step, ": the simulator is told ", told.size(), " times about the entities");
      std::map<std::string, const simulation_api_schema::EntityStatus *> listed;
      for (auto & x : told[0].update_entity_status().status()) c.require(listed.emplace(x.name(), &x).second, "step ", step, ": ", x.name(), " is listed twice");
      c.require(listed.size() == before.size(), "step ", step, ": the simulator is told about ", listed.size(), " entities instead of ", before.size());
      for (auto & [k, e] : before) {
        c.require(listed.count(k), "step ", step, ": the simulator is not told about ", k);
        Pose p;
        simulation_interface::toMsg(listed[k]->pose(), p);
        c.require(same(p, e.pose, 1e-5) && std::abs(listed[k]->action_status().twist().linear().x() - e.speed) < 1e-9, "step ", step, ": the simulator is told that ", k, " is at ", text(p), " instead of ", text(e.pose));
      }
      c.require(told[0].update_entity_status().npc_logic_started() == !std::isnan(started), "step ", step, ": the simulator is told another state of the logic");
      const auto times = requests([](auto & r) { return r.has_update_frame(); });
      c.require(times.size() == 1 && std::abs(times[0].update_frame().current_simulation_time() - simulated) < 1e-9, "step ", step, ": the simulator is told another time");
      if (!std::isnan(started)) c.require(std::abs(times[0].update_frame().current_scenario_time() - (simulated - started)) < 1e-9, "step ", step, ": the simulator is told another time of the scenario");
      // what is published: the state after the step, before the sinks
      if (!std::isnan(started))
        for (auto & [k, e] : world)
          if (e.type == Type::MISC_OBJECT) e.speed = e.acceleration = api.isEntityExist(k) ? 0 : e.speed;
      const auto & published = *shim::topics<ms::EntityStatusWithTrajectoryArray>()["entity/status"].history.back();
      c.require(published.data.size() == world.size(), "step ", step, ": ", published.data.size(), " entities are published instead of ", world.size());
      for (auto & x : published.data) {
        c.require(world.count(x.name) && x.status.name == x.name, "step ", step, ": ", x.name, " is published as ", x.status.name);
        c.require(same(x.status.pose, world[x.name].pose, 1e-5), "step ", step, ": ", x.name, " is published at ", text(x.status.pose), " instead of ", text(world[x.name].pose));
        c.require(x.status.type.type == world[x.name].type, "step ", step, ": ", x.name, " is published with another type");
        if (!std::isnan(started)) c.require(std::abs(x.time - (simulated - started + factor / rate)) < 1e-9 && x.time == x.status.time, "step ", step, ": ", x.name, " is published for ", x.time);
      }
      // sinks
      std::multiset<std::string> despawned;
      for (auto & r : remote::requests())
        if (r.has_despawn_entity()) despawned.insert(r.despawn_entity().name());
      for (auto i = world.begin(); i != world.end();) {
        double nearest = 1e9;
        for (auto & e : ends) nearest = std::min(nearest, norm(e - at(i->second.pose.position)));
        const bool there = api.isEntityExist(i->first);
        if (std::abs(nearest - 1) > 1e-4) {
          const bool sinks = sinkable.count(i->second.type) && nearest < 1;
          c.require(there != sinks, "step ", step, ": ", i->first, " is ", nearest, " m from the nearest end of a lane and ", there ? "stays" : "vanishes");
        }
        c.require(despawned.count(i->first) == (there ? 0 : 1), "step ", step, ": the simulator is told ", despawned.count(i->first), " times to despawn ", i->first);
        if (there) ++i;
        else i = world.erase(i), ++sunk;
      }
      simulated += factor / rate;
    }
    check(step);
    if (world.size() > 1 && s.chance(30)) {
      const auto a = s.pick(names), b = s.pick(names);
      const bool is = api.checkCollision(a, b);
      if (a == b || !world.count(a) || !world.count(b)) c.require(!is, "step ", step, ": ", a, " and ", b, " collide");
      else if (const double d = gap(corners(world[a].pose, world[a].box), corners(world[b].pose, world[b].box)); std::abs(d) > 1e-3 && std::abs(world[a].pose.position.z - world[b].pose.position.z) < 0.1 && std::abs(world[a].pose.orientation.x) + std::abs(world[a].pose.orientation.y) + std::abs(world[b].pose.orientation.x) + std::abs(world[b].pose.orientation.y) < 1e-6) {
        c.require(is == (d < 0), "step ", step, ": ", a, " and ", b, is ? " collide" : " do not collide", ", but their boxes are ", d, " m apart");
        if (is) c.label("collision");
      }
    }
  }
  if (sunk) c.label("sunk");
  if (refused) c.label("refused");
  if (spawned && frames && (gone || sunk || spawned > 1)) c.nontrivial();
}

// ---------------------------------------------------------------- sources
namespace
{
struct Spawned
{
  std::string name, behavior, model;
  Pose pose;
  std::optional<ts::LaneletPose> lane;
  bool vehicle;
};
struct Spawner
{
  std::vector<Spawned> * out;
  static Pose map(const Pose & p) { return p; }
  static Pose map(const ts::CanonicalizedLaneletPose & p) { return ts::pose::toMapPose(p); }
  static std::optional<ts::LaneletPose> lane(const Pose &) { return {}; }
  static std::optional<ts::LaneletPose> lane(const ts::CanonicalizedLaneletPose & p) { return static_cast<ts::LaneletPose>(p); }
  template <typename P, typename Q> void operator()(const std::string & name, const P & pose, const Q &, const std::string & behavior, const std::string & model) const
  {
    out->push_back({name, behavior, model, map(pose), lane(pose), std::is_same_v<Q, ms::VehicleParameters>});
  }
};
}  // namespace

VF_PROP("sources", 2500, 400000)
{
  roads::Options o;
  o.max_roads = 3, o.max_lanes = 3, o.crosswalks = true, o.slopes = s.chance(20);
  auto net = roads::generate(s, o);
  net->activate();
  c.log << net->text << "\n";
  using Source = ts::traffic::TrafficSource;
  struct One
  {
    std::unique_ptr<Source> source;
    std::vector<Spawned> spawned;
    Pose at;
    double radius, rate, begins;
    Source::Configuration configuration;
    Source::Distribution distribution;
    std::set<std::string> seen;
    std::set<std::size_t> kinds;
  };
  std::vector<std::unique_ptr<One>> all;
  double now = s.chance(20) ? std::numeric_limits<double>::quiet_NaN() : s.chance(50) ? 0.0 : s.uniform(0, 5);
  c.log << "begins at " << now << "\n";
  for (std::size_t i = s.length(1, 3); i-- > 0;) {
    auto x = std::make_unique<One>();
    const bool outside = s.chance(30);
    x->at = static_cast<Pose>(ts::CanonicalizedLaneletPose(somewhere(s, *net, net->ids, 0)));
    if (outside) x->at = pose2(x->at.position.x + s.uniform(-20, 20), x->at.position.y + s.uniform(-20, 20), s.uniform(-3, 3));
    x->configuration.allow_spawn_outside_lane = outside;
    x->configuration.require_footprint_fitting = s.chance(40);
    x->configuration.use_random_orientation = s.chance(40);
    x->configuration.start_delay = s.pick({0.0, 0.0, 1.3, -2.0});
    double largest = 0;
    const bool walkers = s.chance(30);
    for (std::size_t k = s.length(1, 3); k-- > 0;) {
      const double weight = s.pick({1.0, 1.0, 0.0, 0.7});
      const std::string behavior = "behavior" + std::to_string(k), model = "model" + std::to_string(k);
      if (walkers) {
        auto p = pedestrian(s);
        largest = std::max(largest, radiusOf(p.bounding_box));
        x->distribution.emplace_back(p, behavior, model, weight);
      } else {
        auto p = vehicle(s);
        p.bounding_box.dimensions.y = std::min(p.bounding_box.dimensions.y, 1.8), p.bounding_box.dimensions.x = std::min(p.bounding_box.dimensions.x, 4.0), p.bounding_box.center.y = 0;
        largest = std::max(largest, radiusOf(p.bounding_box));
        x->distribution.emplace_back(p, behavior, model, weight);
      }
    }
    if (std::all_of(x->distribution.begin(), x->distribution.end(), [](auto & d) { return std::get<3>(d) == 0; })) std::get<3>(x->distribution.front()) = 1;
    x->radius = largest + s.uniform(1, 12), x->rate = s.pick({1.0, 2.0, 0.3, 7.0, 30.0});
    x->begins = (std::isnan(now) ? 0 : now) + std::max(0.0, x->configuration.start_delay);
    const int seed = static_cast<int>(s.index(1000));
    c.log << "a source of radius " << x->radius << " at " << text(x->at) << ", " << x->rate << " Hz, delay " << x->configuration.start_delay << (outside ? ", outside" : "") << (x->configuration.require_footprint_fitting ? ", fitting" : "") << (x->configuration.use_random_orientation ? ", turned" : "") << ", seed " << seed << (walkers ? ", walkers\n" : "\n");
    x->source = std::make_unique<Source>(x->radius, x->rate, x->at, x->distribution, seed, now, x->configuration, Spawner{&x->spawned});
    all.push_back(std::move(x));
  }
  if (std::isnan(now)) now = 0;
  std::set<std::string> names;
  std::size_t total = 0, on_lanes = 0;
  for (std::size_t frame = 0, n = s.length(1, 60); frame < n; ++frame) {
    const double step = s.pick({1.0 / 30, 1.0 / 30, 0.1, 0.5});
    for (auto & x : all) {
      const auto before = x->spawned.size();
      try {
        x->source->execute(now, step);
      } catch (const common::SimulationError & e) {
        // there need not be room for an entity in the area
        c.require(!x->configuration.allow_spawn_outside_lane, "an entity of ", x->radius, " m does not find a place: ", e.what());
        c.label("no room");
        if (x->spawned.empty()) return;
        return;
      }
      // one at once, then one each 1 / rate
      const double passed = (now - x->begins) * x->rate;
      const double count = passed <= 0 ? 0 : std::ceil(passed);
      if (std::abs(passed - std::round(passed)) > 1e-6)
        c.require(static_cast<double>(x->spawned.size()) == count, "at ", now, " there are ", x->spawned.size(), " entities of a source that began at ", x->begins, " instead of ", count);
      for (std::size_t k = before; k < x->spawned.size(); ++k) {
        const auto & e = x->spawned[k];
        ++total;
        c.require(names.insert(e.name).second, "the name ", e.name, " is given twice");
        const auto i = std::find_if(x->distribution.begin(), x->distribution.end(), [&](auto & d) { return std::get<1>(d) == e.behavior; });
        c.require(i != x->distribution.end() && std::get<2>(*i) == e.model && std::get<3>(*i) > 0, "an entity ", e.behavior, " ", e.model, " that the source does not have");
        c.require(e.vehicle == std::holds_alternative<ms::VehicleParameters>(std::get<0>(*i)), "an entity of the wrong kind");
        x->kinds.insert(static_cast<std::size_t>(i - x->distribution.begin()));
        const auto & box = e.vehicle ? std::get<0>(std::get<0>(*i)).bounding_box : std::get<1>(std::get<0>(*i)).bounding_box;
        const double away = std::hypot(e.pose.position.x - x->at.position.x, e.pose.position.y - x->at.position.y);
        c.require(away < x->radius + (e.lane ? 1.5 : 1e-6), e.name, " is ", away, " m away from a source of radius ", x->radius);
        c.require(e.lane.has_value() == !x->configuration.allow_spawn_outside_lane, e.name, " is spawned ", e.lane ? "on" : "off", " a lane");
        if (!x->configuration.use_random_orientation) {
          // before it is turned along its lane it is inside the area
          auto p = x->at;
          p.position = e.pose.position;
          for (auto & v : corners(p, box)) c.require(std::hypot(v.x - x->at.position.x, v.y - x->at.position.y) < x->radius + (e.lane ? 1.5 : 1e-6), "a corner of ", e.name, " at ", text(e.pose), " is outside the area of the source");
          if (!e.lane) c.require(std::abs(wrap(yawOf(e.pose.orientation) - yawOf(x->at.orientation))) < 1e-6, e.name, " is turned");
        } else if (!e.lane) {
          for (auto & v : corners(e.pose, box)) c.require(std::hypot(v.x - x->at.position.x, v.y - x->at.position.y) < x->radius + 1e-6, "a corner of ", e.name, " at ", text(e.pose), " is outside the area of the source");
        }
        if (e.lane) {
          ++on_lanes;
          const bool walk = std::count(net->crosswalks.begin(), net->crosswalks.end(), e.lane->lanelet_id) > 0;
          c.require(walk || net->lanes.count(e.lane->lanelet_id), e.name, " is on ", e.lane->lanelet_id);
          c.require(!e.vehicle || !walk, e.name, " is on a crosswalk");
          c.require(std::abs(e.lane->rpy.z) < 1e-9, e.name, " is not aligned with its lane");
          if (x->configuration.require_footprint_fitting && !walk && e.vehicle) {
            for (auto & v : corners(e.pose, box)) {
              bool inside = false;
              double nearest = 1e9;
              for (auto & [id, lane] : net->lanes) {
                const auto shape = polygon(*net, id);
                inside = inside || insidePolygon(shape, v);
                nearest = std::min(nearest, toBorder(shape, v));
              }
              c.require(inside || nearest < (o.slopes ? 0.3 : 1e-2), "a corner of ", e.name, " at ", text(e.pose), " is ", nearest, " m off the lanes");
            }
            c.label("fits");
          }
        }
      }
    }
    now += step;
  }
  for (auto & x : all)
    if (x->spawned.size() >= 60)
      for (std::size_t k = 0; k < x->distribution.size(); ++k)
        if (std::get<3>(x->distribution[k]) > 0) c.require(x->kinds.count(k), "of ", x->spawned.size(), " entities of a source none is ", std::get<1>(x->distribution[k]));
  if (on_lanes) c.label("on lanes");
  if (total > on_lanes) c.label("off lanes");
  if (total) c.nontrivial();
}
