// Conversions between ROS messages and the simulators' wire format, judged field by field.
#include <rosgraph_msgs/msg/clock.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <simulation_interface/constants.hpp>
#include <simulation_interface/conversions.hpp>
#include <simulation_interface/operators.hpp>

#include "protos.hpp"
namespace si = simulation_interface;

// constants of enumerations in messages, by name, so that both sides are compared by meaning
std::string enumerator(const std::string & kind, long v)
{
  using traffic_simulator_msgs::msg::EntitySubtype;
  using traffic_simulator_msgs::msg::EntityType;
  if (kind == "type") switch (v) {
    case EntityType::EGO: return "EGO";
    case EntityType::VEHICLE: return "VEHICLE";
    case EntityType::PEDESTRIAN: return "PEDESTRIAN";
    case EntityType::MISC_OBJECT: return "MISC_OBJECT";
  }
  if (kind == "subtype") switch (v) {
    case EntitySubtype::UNKNOWN: return "UNKNOWN";
    case EntitySubtype::CAR: return "CAR";
    case EntitySubtype::TRUCK: return "TRUCK";
    case EntitySubtype::BUS: return "BUS";
    case EntitySubtype::TRAILER: return "TRAILER";
    case EntitySubtype::MOTORCYCLE: return "MOTORCYCLE";
    case EntitySubtype::BICYCLE: return "BICYCLE";
    case EntitySubtype::PEDESTRIAN: return "PEDESTRIAN";
  }
  return "?";
}

// both ways between message M and wire format P; ignore: paths that P does not have
template <class M, class P, class To, class From>
void roundTrip(vf::Src & s, vf::Case & c, To to, From from, const std::set<std::string> & missing = {})
{
  const auto keep = [&](msgs::Flat f) {
    for (auto i = f.begin(); i != f.end();) {
      bool drop = false;
      for (const auto & m : missing) drop |= i->first == m || i->first.rfind(m + ".", 0) == 0;
      i = drop ? f.erase(i) : std::next(i);
    }
    return f;
  };
  if (s.boolean()) {
    M m, back;
    msgs::fill(m, s);
    if constexpr (std::is_same_v<M, traffic_simulator_msgs::msg::EntityStatus>) {
      m.type.type = static_cast<unsigned char>(s.draw(4));
      m.subtype.value = static_cast<unsigned char>(s.draw(8));
    }
    if constexpr (std::is_same_v<M, autoware_vehicle_msgs::msg::GearCommand>) m.command = s.pick({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24});
    for (const auto & [k, v] : msgs::flat(m)) c.log << k << "=" << v << " ";
    P p;
    if (s.boolean()) {  // into a used object
      fill(p, s);
      if (s.boolean()) msgs::fill(back, s);
    }
    if constexpr (std::is_void_v<decltype(to(m, p))>) {
      to(m, p);
      from(p, back);
    }
    const auto want = keep(msgs::flat(m));
    auto got = flat(p);
    auto d = msgs::difference(want, keep(got));
    c.require(d.empty(), P::descriptor()->full_name(), " of a message: ", d);
    auto again = msgs::flat(back);
    d = msgs::difference(want, keep(again));
    c.require(d.empty(), P::descriptor()->full_name(), " there and back: ", d);
    c.nontrivial();
  } else {
    P p, back;
    fill(p, s);
    M m;
    if (s.boolean()) msgs::fill(m, s);
    c.log << p.ShortDebugString();
    from(p, m);
    auto d = msgs::difference(keep(flat(p)), keep(msgs::flat(m)));
    c.require(d.empty(), "the message of ", P::descriptor()->full_name(), ": ", d);
    to(m, back);
    d = msgs::difference(flat(p), flat(back));
    c.require(d.empty(), P::descriptor()->full_name(), " back and there: ", d);
    c.nontrivial();
  }
}
#define BOTH(M, P, ...)                                                                                              \
  roundTrip<M, P>(s, c, [](const M & m, P & p) { si::toProto(m, p); }, [](const P & p, M & m) { si::toMsg(p, m); }, ##__VA_ARGS__)

VF_PROP("messages and wire format", 60000, 1500000)
{
  namespace m = traffic_simulator_msgs::msg;
  namespace p = traffic_simulator_msgs;
  switch (s.draw(27)) {
    case 0: BOTH(geometry_msgs::msg::Point, geometry_msgs::Point); break;
    case 1: BOTH(geometry_msgs::msg::Quaternion, geometry_msgs::Quaternion); break;
    case 2: BOTH(geometry_msgs::msg::Pose, geometry_msgs::Pose); break;
    case 3: BOTH(geometry_msgs::msg::Vector3, geometry_msgs::Vector3); break;
    case 4: BOTH(geometry_msgs::msg::Twist, geometry_msgs::Twist); break;
    case 5: BOTH(geometry_msgs::msg::Accel, geometry_msgs::Accel); break;
    case 6: BOTH(m::BoundingBox, p::BoundingBox); break;
    case 7: BOTH(m::Performance, p::Performance); break;
    case 8: BOTH(m::Axle, p::Axle); break;
    case 9: BOTH(m::Axles, p::Axles); break;
    case 10: BOTH(m::VehicleParameters, p::VehicleParameters, {"subtype"}); break;
    case 11: BOTH(m::PedestrianParameters, p::PedestrianParameters, {"subtype"}); break;
    case 12: BOTH(m::MiscObjectParameters, p::MiscObjectParameters, {"subtype"}); break;
    case 13: BOTH(m::ActionStatus, p::ActionStatus); break;
    case 14: BOTH(m::LaneletPose, p::LaneletPose); break;
    case 15: case 16: BOTH(m::EntityStatus, p::EntityStatus); break;
    case 17: case 18: BOTH(m::EntityStatus, simulation_api_schema::EntityStatus, {"bounding_box", "lanelet_pose", "lanelet_pose_valid"}); break;
    case 19: BOTH(builtin_interfaces::msg::Duration, builtin_interfaces::Duration); break;
    case 20: BOTH(builtin_interfaces::msg::Time, builtin_interfaces::Time); break;
    case 21: BOTH(rosgraph_msgs::msg::Clock, rosgraph_msgs::Clock); break;
    case 22: BOTH(std_msgs::msg::Header, std_msgs::Header); break;
    case 23: BOTH(autoware_control_msgs::msg::Lateral, autoware_control_msgs::Lateral); break;
    case 24: BOTH(autoware_control_msgs::msg::Longitudinal, autoware_control_msgs::Longitudinal); break;
    case 25: BOTH(autoware_control_msgs::msg::Control, autoware_control_msgs::Control); break;
    default: BOTH(autoware_vehicle_msgs::msg::GearCommand, autoware_vehicle_msgs::GearCommand);
  }
}

VF_PROP("trajectories and commands", 12000, 300000)
{
  using traffic_simulator_msgs::msg::PolylineTrajectory;
  if (s.boolean()) {
    PolylineTrajectory m;
    msgs::fill(m, s);
    for (const auto & [k, v] : msgs::flat(m)) c.log << k << "=" << v << " ";
    const auto p = si::toProtobufMessage(m);
    auto d = msgs::difference(msgs::flat(m), flat(p));
    c.require(d.empty(), "wire format of a trajectory: ", d);
    d = msgs::difference(msgs::flat(m), msgs::flat(si::toROS2Message(p)));
    c.require(d.empty(), "trajectory there and back: ", d);
    d = msgs::difference(msgs::flat(m.shape), flat(si::toProtobufMessage(m.shape)));
    c.require(d.empty(), "wire format of a polyline: ", d);
    d = msgs::difference(msgs::flat(m.shape), msgs::flat(si::toROS2Message(si::toProtobufMessage(m.shape))));
    c.require(d.empty(), "polyline there and back: ", d);
    if (!m.shape.vertices.empty()) c.nontrivial();
  } else {
    std::tuple<autoware_control_msgs::msg::Control, autoware_vehicle_msgs::msg::GearCommand> m;
    msgs::fill(std::get<0>(m), s);
    msgs::fill(std::get<1>(m), s);
    std::get<1>(m).command = static_cast<unsigned char>(s.draw(25));
    traffic_simulator_msgs::VehicleCommand p;
    if (s.boolean()) fill(p, s);
    si::toProto(m, p);
    c.log << p.ShortDebugString();
    autoware_control_msgs::Control control;
    si::toProto(std::get<0>(m), control);
    autoware_vehicle_msgs::GearCommand gear;
    si::toProto(std::get<1>(m), gear);
    auto d = msgs::difference(flat(control), flat(p.control()));
    c.require(d.empty(), "control of a command: ", d);
    d = msgs::difference(flat(gear), flat(p.gear_command()));
    c.require(d.empty(), "gear of a command: ", d);
    c.nontrivial();
  }
}

VF_PROP("enumerations and their names", 20000, 200000)
{
  using traffic_simulator_msgs::msg::EntitySubtype;
  using traffic_simulator_msgs::msg::EntityType;
  const auto text = [](const auto & x) {
    using traffic_simulator_msgs::operator<<;
    std::ostringstream ss;
    ss << x;
    return ss.str();
  };
  const int v = static_cast<int>(s.draw(20));
  c.log << v;
  if (s.boolean()) {
    c.log << " type";
    EntityType m, back;
    traffic_simulator_msgs::EntityType p;
    m.type = static_cast<unsigned char>(v);
    if (v < 4) {
      const auto name = enumerator("type", v);
      si::toProto(m, p);
      c.require(traffic_simulator_msgs::EntityType_Enum_Name(p.type()) == name, name, " became ", traffic_simulator_msgs::EntityType_Enum_Name(p.type()));
      back.type = static_cast<unsigned char>(s.draw(4));
      si::toMsg(p, back);
      c.require(back == m, name, " there and back");
      c.require(text(m) == name && text(p) == name, name, " prints as ", text(m), " and ", text(p));
    } else {
      VF_THROWS(common::SimulationError, si::toProto(m, p));
      VF_THROWS(common::Error, text(m));
      p.set_type(static_cast<traffic_simulator_msgs::EntityType_Enum>(v));
      VF_THROWS(common::SimulationError, si::toMsg(p, back));
    }
  } else {
    c.log << " subtype";
    EntitySubtype m, back;
    traffic_simulator_msgs::EntitySubtype p;
    m.value = static_cast<unsigned char>(v);
    if (v < 8) {
      const auto name = enumerator("subtype", v);
      si::toProto(m, p);
      c.require(traffic_simulator_msgs::EntitySubtype_Enum_Name(p.value()) == name, name, " became ", traffic_simulator_msgs::EntitySubtype_Enum_Name(p.value()));
      back.value = static_cast<unsigned char>(s.draw(8));
      si::toMsg(p, back);
      c.require(back == m, name, " there and back");
      c.require(text(m) == name && text(p) == name, name, " prints as ", text(m), " and ", text(p));
    } else {
      VF_THROWS(common::SimulationError, si::toProto(m, p));
      VF_THROWS(common::Error, text(m));
      p.set_value(static_cast<traffic_simulator_msgs::EntitySubtype_Enum>(v));
      VF_THROWS(common::SimulationError, si::toMsg(p, back));
    }
  }
  c.nontrivial();
}

// a bulb message with constants of its own
struct Bulb
{
  enum { RED = 101, AMBER, GREEN, WHITE, UNKNOWN, CIRCLE, LEFT_ARROW, RIGHT_ARROW, UP_ARROW, UP_LEFT_ARROW, UP_RIGHT_ARROW, DOWN_ARROW, DOWN_LEFT_ARROW, DOWN_RIGHT_ARROW, CROSS, SOLID_OFF, SOLID_ON, FLASHING };
  int color = 0, shape = 0, status = 0;
  double confidence = 0;
};
VF_PROP("traffic light bulbs", 20000, 200000)
{
  using namespace simulation_api_schema;
  TrafficLight p;
  fill(p, s);
  c.log << p.ShortDebugString();
  Bulb b;
  si::toMsg(p, b);
  static const std::map<std::string, int> colors{{"RED", Bulb::RED}, {"AMBER", Bulb::AMBER}, {"GREEN", Bulb::GREEN}, {"WHITE", Bulb::WHITE}, {"UNKNOWN_COLOR", Bulb::UNKNOWN}};
  static const std::map<std::string, int> shapes{{"CIRCLE", Bulb::CIRCLE}, {"LEFT_ARROW", Bulb::LEFT_ARROW}, {"RIGHT_ARROW", Bulb::RIGHT_ARROW}, {"UP_ARROW", Bulb::UP_ARROW}, {"DOWN_ARROW", Bulb::DOWN_ARROW}, {"DOWN_LEFT_ARROW", Bulb::DOWN_LEFT_ARROW}, {"DOWN_RIGHT_ARROW", Bulb::DOWN_RIGHT_ARROW}, {"CROSS", Bulb::CROSS}, {"UNKNOWN_SHAPE", Bulb::UNKNOWN}};
  static const std::map<std::string, int> statuses{{"SOLID_OFF", Bulb::SOLID_OFF}, {"SOLID_ON", Bulb::SOLID_ON}, {"FLASHING", Bulb::FLASHING}, {"UNKNOWN_STATUS", Bulb::UNKNOWN}};
  c.require(b.color == colors.at(TrafficLight_Color_Name(p.color())), TrafficLight_Color_Name(p.color()), " became ", b.color);
  c.require(b.status == statuses.at(TrafficLight_Status_Name(p.status())), TrafficLight_Status_Name(p.status()), " became ", b.status);
  const auto shape = shapes.find(TrafficLight_Shape_Name(p.shape()));  // diagonal up arrows are not supported by the code yet
  if (shape != shapes.end()) c.require(b.shape == shape->second, shape->first, " became ", b.shape);
  c.require(static_cast<float>(b.confidence) == p.confidence(), "confidence ", b.confidence, " instead of ", p.confidence());
  c.nontrivial();
}

VF_PROP("packets and end points", 12000, 200000)
{
  simulation_api_schema::UpdateEntityStatusRequest p;
  fill(p, s);
  const auto packet = zeromq::toZMQ(p);
  const auto q = zeromq::toProto<simulation_api_schema::UpdateEntityStatusRequest>(packet);
  const auto d = msgs::difference(flat(p), flat(q));
  c.require(d.empty(), "packed and unpacked: ", d);
  const unsigned port = static_cast<unsigned>(s.draw(65536));
  const std::string host = s.text("abc.019-", 8);
  c.log << p.ShortDebugString() << " " << port << host;
  c.require(si::getEndPoint(si::TransportProtocol::TCP, host, port) == "tcp://" + host + ":" + std::to_string(port), "end point ", si::getEndPoint(si::TransportProtocol::TCP, host, port));
  c.require(si::getEndPoint(si::TransportProtocol::TCP, si::HostName::ANY, port) == "tcp://*:" + std::to_string(port) && si::getEndPoint(si::TransportProtocol::TCP, si::HostName::LOCALHOST, port) == "tcp://localhost:" + std::to_string(port), "end points");
  c.nontrivial();
}
