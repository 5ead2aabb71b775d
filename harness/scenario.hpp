// A scenario run by the real interpreter and traffic simulator, one frame at a time.
// The environment simulator at the other end of the socket is replaced by a recording stand-in.
#ifndef SCENARIO_HPP_
#define SCENARIO_HPP_
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <openscenario_interpreter/simulator_core.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/parameter_value_distribution.hpp>
#include <openscenario_interpreter/syntax/scenario_definition.hpp>
#include <openscenario_interpreter/syntax/scenario_object.hpp>
#include <openscenario_interpreter/syntax/custom_command_action.hpp>
#include <pluginlib/class_loader.hpp>
#include <rclcpp_lifecycle/lifecycle_node.hpp>
#include <simulation_interface/conversions.hpp>
#include <simulation_interface/zmq_multi_client.hpp>
#include <traffic_simulator/behavior/behavior_plugin_base.hpp>

#include "roads.hpp"

namespace remote  // the stand-in for the environment simulator
{
namespace schema = simulation_api_schema;
inline std::vector<schema::SimulationRequest> & requests()
{
  static std::vector<schema::SimulationRequest> r;
  return r;
}
inline std::function<void(const schema::SimulationRequest &, schema::SimulationResponse &)> & answer()
{
  static std::function<void(const schema::SimulationRequest &, schema::SimulationResponse &)> f;
  return f;
}
}  // namespace remote

namespace zeromq
{
namespace schema = simulation_api_schema;
MultiClient::MultiClient(const simulation_interface::TransportProtocol & protocol, const std::string & hostname, const unsigned int) : protocol(protocol), hostname(hostname), context_(0), type_(zmq::socket_type::req) {}
MultiClient::~MultiClient() {}
void MultiClient::closeConnection() { is_running = false; }
auto MultiClient::call(const schema::SimulationRequest & q) -> schema::SimulationResponse
{
  remote::requests().push_back(q);
  schema::SimulationResponse r;
  if (q.has_update_entity_status()) {
    for (const auto & status : q.update_entity_status().status()) {
      auto & back = *r.mutable_update_entity_status()->add_status();
      back.set_name(status.name());
      *back.mutable_action_status() = status.action_status();
      *back.mutable_pose() = status.pose();
    }
  }
#define KIND(NAME) if (q.has_##NAME()) r.mutable_##NAME()->mutable_result()->set_success(true)
  KIND(initialize); KIND(update_frame); KIND(update_step_time); KIND(spawn_vehicle_entity); KIND(spawn_pedestrian_entity); KIND(spawn_misc_object_entity); KIND(despawn_entity); KIND(update_entity_status);
  KIND(attach_imu_sensor); KIND(attach_lidar_sensor); KIND(attach_detection_sensor); KIND(attach_occupancy_grid_sensor); KIND(update_traffic_lights); KIND(attach_pseudo_traffic_light_detector);
#undef KIND
  if (remote::answer()) remote::answer()(q, r);
  return r;
}
#define CALL(TYPE, NAME)                                                        \
  auto MultiClient::call(const schema::TYPE##Request & q) -> schema::TYPE##Response \
  {                                                                             \
    if (!is_running) return {};                                                 \
    schema::SimulationRequest request;                                          \
    *request.mutable_##NAME() = q;                                              \
    return call(request).NAME();                                                \
  }
CALL(Initialize, initialize)
CALL(UpdateFrame, update_frame)
CALL(UpdateStepTime, update_step_time)
CALL(SpawnVehicleEntity, spawn_vehicle_entity)
CALL(SpawnPedestrianEntity, spawn_pedestrian_entity)
CALL(SpawnMiscObjectEntity, spawn_misc_object_entity)
CALL(DespawnEntity, despawn_entity)
CALL(UpdateEntityStatus, update_entity_status)
CALL(AttachImuSensor, attach_imu_sensor)
CALL(AttachLidarSensor, attach_lidar_sensor)
CALL(AttachDetectionSensor, attach_detection_sensor)
CALL(AttachOccupancyGridSensor, attach_occupancy_grid_sensor)
CALL(UpdateTrafficLights, update_traffic_lights)
CALL(AttachPseudoTrafficLightDetector, attach_pseudo_traffic_light_detector)
#undef CALL
}  // namespace zeromq

namespace scenario
{
namespace osc = openscenario_interpreter;

inline std::string scratch()
{
  struct Directory
  {
    std::string path;
    Directory()
    {
      char name[] = "/tmp/verif-scenario-XXXXXX";
      path = mkdtemp(name);
      std::filesystem::create_directory(path + "/map");
      std::ofstream(path + "/map/pointcloud_map.pcd");
    }
    ~Directory()
    {
      std::error_code e;
      if (path.rfind("/tmp/verif-scenario-", 0) == 0 && owner == getpid()) std::filesystem::remove_all(path, e);
    }
    pid_t owner = getpid();
  };
  static Directory d;
  return d.path;
}

// ---------------------------------------------------------------- XML
struct Xml
{
  std::string name;
  std::vector<std::pair<std::string, std::string>> attributes;
  std::vector<Xml> children;
  std::string content;

  Xml(const std::string & name, std::vector<std::pair<std::string, std::string>> attributes = {}, std::vector<Xml> children = {}) : name(name), attributes(std::move(attributes)), children(std::move(children)) {}
  Xml & add(Xml x)
  {
    children.push_back(std::move(x));
    return *this;
  }
  Xml & with(const std::string & key, const std::string & value)
  {
    attributes.emplace_back(key, value);
    return *this;
  }
  Xml & text(const std::string & t)
  {
    content = t;
    return *this;
  }
  static std::string escape(const std::string & t)
  {
    std::string out;
    for (char ch : t) switch (ch) {
        case '<': out += "&lt;"; break;
        case '>': out += "&gt;"; break;
        case '&': out += "&amp;"; break;
        case '"': out += "&quot;"; break;
        default: out += ch;
      }
    return out;
  }
  void write(std::string & out, int depth = 0) const
  {
    out += std::string(depth, ' ') + "<" + name;
    for (const auto & [k, v] : attributes) out += " " + k + "=\"" + escape(v) + "\"";
    if (children.empty() && content.empty()) {
      out += "/>\n";
    } else if (children.empty()) {
      out += ">" + escape(content) + "</" + name + ">\n";
    } else {
      out += ">\n";
      for (const auto & c : children) c.write(out, depth + 1);
      out += std::string(depth, ' ') + "</" + name + ">\n";
    }
  }
  std::string str() const
  {
    std::string out = "<?xml version=\"1.0\"?>\n";
    write(out);
    return out;
  }
};

inline std::string num(double x)
{
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
inline std::string num(int x) { return std::to_string(x); }
inline std::string num(long x) { return std::to_string(x); }

struct Parts  // what a scenario file consists of
{
  Xml parameters{"ParameterDeclarations"}, catalogs{"CatalogLocations"}, signals{"TrafficSignals"}, entities{"Entities"}, init{"Actions"}, stop{"StopTrigger"};
  std::vector<Xml> stories;
  std::string map = scratch() + "/map";

  Xml document() const
  {
    Xml storyboard("Storyboard", {}, {Xml("Init", {}, {init})});
    for (const auto & story : stories) storyboard.add(story);
    if (stories.empty()) {  // there has to be one
      Xml never("StartTrigger", {}, {Xml("ConditionGroup", {}, {Xml("Condition", {{"name", ""}, {"delay", "0"}, {"conditionEdge", "none"}}, {Xml("ByValueCondition", {}, {Xml("SimulationTimeCondition", {{"value", "1e9"}, {"rule", "greaterThan"}})})})})});
      Xml event("Event", {{"name", ""}, {"priority", "parallel"}}, {Xml("Action", {{"name", ""}}, {Xml("UserDefinedAction", {}, {Xml("CustomCommandAction", {{"type", ":"}})})}), never});
      Xml group("ManeuverGroup", {{"name", ""}, {"maximumExecutionCount", "1"}}, {Xml("Actors", {{"selectTriggeringEntities", "false"}}), Xml("Maneuver", {{"name", ""}}, {event})});
      storyboard.add(Xml("Story", {{"name", ""}}, {Xml("Act", {{"name", ""}}, {group, never})}));
    }
    storyboard.add(stop);
    return Xml("OpenSCENARIO", {}, {
      Xml("FileHeader", {{"revMajor", "1"}, {"revMinor", "0"}, {"date", "2021-01-01T00:00:00.000+09:00"}, {"description", ""}, {"author", ""}}),
      parameters, catalogs, Xml("RoadNetwork", {}, {Xml("LogicFile", {{"filepath", map}}), signals}), entities, storyboard});
  }
};

// ---------------------------------------------------------------- behaviour of traffic participants
struct Plugin : entity_behavior::BehaviorPluginBase
{
  inline static std::string action = "";                             // what every plugin reports
  inline static std::map<std::string, std::string> action_of;        // and what the plugin of one entity reports
  inline static std::function<void(Plugin &, double, double)> move;  // what a step does

  auto configure(const rclcpp::Logger &) -> void override {}
  auto update(const double time, const double step) -> void override
  {
    if (move) move(*this, time, step);
  }
  auto getCurrentAction() const -> const std::string & override
  {
    if (CanonicalizedEntityStatus_)
      if (auto i = action_of.find(CanonicalizedEntityStatus_->getName()); i != action_of.end()) return i->second;
    return action;
  }
#define STORE(NAME, TYPE)                       \
  TYPE NAME##_{};                               \
  TYPE get##NAME() override { return NAME##_; } \
  void set##NAME(const TYPE & v) override { NAME##_ = v; }
  STORE(BehaviorParameter, traffic_simulator_msgs::msg::BehaviorParameter)
  STORE(CanonicalizedEntityStatus, std::shared_ptr<traffic_simulator::CanonicalizedEntityStatus>)
  STORE(CurrentTime, double)
  STORE(DebugMarker, std::vector<visualization_msgs::msg::Marker>)
  STORE(DefaultMatchingDistanceForLaneletPoseCalculation, double)
  STORE(EuclideanDistancesMap, std::shared_ptr<entity_behavior::EuclideanDistancesMap>)
  STORE(GoalPoses, std::vector<geometry_msgs::msg::Pose>)
  STORE(LaneChangeParameters, traffic_simulator::lane_change::Parameter)
  STORE(LateralCollisionThreshold, std::optional<double>)
  STORE(Obstacle, std::optional<traffic_simulator_msgs::msg::Obstacle>)
  STORE(OtherEntityStatus, entity_behavior::EntityStatusDict)
  STORE(PedestrianParameters, traffic_simulator_msgs::msg::PedestrianParameters)
  STORE(PolylineTrajectory, std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory>)
  STORE(ReferenceTrajectory, std::shared_ptr<math::geometry::CatmullRomSpline>)
  STORE(Request, traffic_simulator::behavior::Request)
  STORE(RouteLanelets, lanelet::Ids)
  STORE(StepTime, double)
  STORE(TargetSpeed, std::optional<double>)
  STORE(TrafficLights, std::shared_ptr<traffic_simulator::TrafficLightsBase>)
  STORE(VehicleParameters, traffic_simulator_msgs::msg::VehicleParameters)
  STORE(Waypoints, traffic_simulator_msgs::msg::WaypointsArray)
#undef STORE
};

// ---------------------------------------------------------------- running it
// Follows what the interpreter's node does when it is configured, activated and its timer fires.
struct Run : osc::SimulatorCore::NonStandardOperation, osc::SimulatorCore::ConditionEvaluation
{
  std::shared_ptr<rclcpp_lifecycle::LifecycleNode> node;
  std::shared_ptr<osc::OpenScenario> script;
  roads::Net * net = nullptr;

  explicit Run(const Parts & parts, roads::Net & net) : Run(parts.document().str(), net) {}
  explicit Run(const std::string & text, roads::Net & net) : net(&net)
  {
    static const bool registered = [] {
      for (const auto & name : {traffic_simulator::VehicleBehavior::defaultBehavior(), traffic_simulator::PedestrianBehavior::defaultBehavior()})
        pluginlib::registry<entity_behavior::BehaviorPluginBase>()[name] = [] { return std::make_shared<Plugin>(); };
      return true;
    }();
    (void)registered;
    remote::requests().clear();
    Plugin::action.clear();
    Plugin::action_of.clear();
    const auto path = scratch() + "/scenario.xosc";
    std::ofstream(path) << text;
    script = std::make_shared<osc::OpenScenario>(path);
  }
  ~Run() { osc::SimulatorCore::deactivate(); }

  osc::ScenarioDefinition & definition() { return script->category.as<osc::ScenarioDefinition>(); }

  double frame_rate = 30, real_time_factor = 1;
  void activate()
  {
    static int count = 0;
    minilanelet::builder() = [this](auto &&...) { return net->map; };
    const auto map = "net-" + std::to_string(++count) + ".osm";
    std::ofstream(scratch() + "/map/" + map);
    node = std::make_shared<rclcpp_lifecycle::LifecycleNode>("openscenario_interpreter", rclcpp::NodeOptions());
    traffic_simulator::Configuration configuration(definition().road_network.logic_file, map, scratch() + "/scenario.xosc");
    osc::SimulatorCore::activate(node, configuration, real_time_factor, frame_rate);
    osc::SimulatorCore::update();
    definition().storyboard.init.evaluateInstantaneousActions();
    for (const auto & [name, object] : definition().entities)
      if (object.template is<osc::ScenarioObject>() && object.template as<osc::ScenarioObject>().is_added && object.template as<osc::ScenarioObject>().object_controller.isAutoware()) NonStandardOperation::engage(name);
    std::filesystem::remove(scratch() + "/map/" + map);
  }
  bool started = false;
  double time() const { return evaluateSimulationTime(); }
  void frame()
  {
    if (std::isnan(evaluateSimulationTime())) activateNonUserDefinedControllers();
    else definition().evaluate();
    osc::SimulatorCore::update();
  }
  boost::json::object json()
  {
    boost::json::object j;
    j << *script;
    return j;
  }
};
}  // namespace scenario
#endif
