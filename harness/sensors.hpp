// Generated entities for the sensor checks.
#pragma once
#include <simulation_interface/simulation_api_schema.pb.h>

#include <Eigen/Geometry>

#include "vf.hpp"

namespace sensors
{
using traffic_simulator_msgs::EntityStatus;
inline Eigen::Quaterniond orientation(vf::Src & s, bool flat)
{
  const double yaw = s.boolean() ? s.real(-M_PI, M_PI) : s.pick({0.0, M_PI / 2, M_PI, -M_PI / 2, M_PI / 4});
  Eigen::Quaterniond q(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()));
  if (!flat) q = q * Eigen::AngleAxisd(s.real(-1, 1), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(s.real(-1, 1), Eigen::Vector3d::UnitX());
  return q;
}
struct Obj
{
  std::string name;
  double d = 1, w = 1, h = 1;  // dimensions of the box
  Eigen::Vector3d p{0, 0, 0}, centre{0, 0, 0};
  Eigen::Quaterniond q{1, 0, 0, 0};
  int type = 1, subtype = 0;
  Eigen::Vector3d linear{0, 0, 0}, angular{0, 0, 0};
  EntityStatus proto() const
  {
    EntityStatus e;
    e.set_name(name);
    auto & pose = *e.mutable_pose();
    pose.mutable_position()->set_x(p.x()), pose.mutable_position()->set_y(p.y()), pose.mutable_position()->set_z(p.z());
    auto & o = *pose.mutable_orientation();
    o.set_x(q.x()), o.set_y(q.y()), o.set_z(q.z()), o.set_w(q.w());
    auto & b = *e.mutable_bounding_box();
    b.mutable_center()->set_x(centre.x()), b.mutable_center()->set_y(centre.y()), b.mutable_center()->set_z(centre.z());
    b.mutable_dimensions()->set_x(d), b.mutable_dimensions()->set_y(w), b.mutable_dimensions()->set_z(h);
    e.mutable_type()->set_type(static_cast<traffic_simulator_msgs::EntityType_Enum>(type));
    e.mutable_subtype()->set_value(static_cast<traffic_simulator_msgs::EntitySubtype_Enum>(subtype));
    auto & t = *e.mutable_action_status()->mutable_twist();
    t.mutable_linear()->set_x(linear.x()), t.mutable_linear()->set_y(linear.y()), t.mutable_linear()->set_z(linear.z());
    t.mutable_angular()->set_x(angular.x()), t.mutable_angular()->set_y(angular.y()), t.mutable_angular()->set_z(angular.z());
    return e;
  }
  Eigen::Vector3d middle() const { return p + q * centre; }
  std::string text() const
  {
    std::ostringstream o;
    o << std::setprecision(17) << name << " " << d << " x " << w << " x " << h << " around " << centre.transpose() << " at " << p.transpose() << " turned " << q.coeffs().transpose() << " type " << type << "/" << subtype;
    return o.str();
  }
};
inline Obj object(vf::Src & s, const std::string & name, double extent)
{
  Obj o;
  o.name = name;
  o.d = s.real(0.3, 6), o.w = s.real(0.3, 3), o.h = s.real(0.3, 3);
  o.p = Eigen::Vector3d(s.real(-extent, extent), s.real(-extent, extent), s.real(-2, 2));
  if (s.boolean()) o.centre = Eigen::Vector3d(s.real(-2, 2), s.real(-1, 1), s.real(0, 1));
  o.q = orientation(s, s.chance(60));
  o.type = s.pick({traffic_simulator_msgs::EntityType::VEHICLE, traffic_simulator_msgs::EntityType::PEDESTRIAN, traffic_simulator_msgs::EntityType::MISC_OBJECT});
  o.subtype = static_cast<int>(s.index(8));
  o.linear = Eigen::Vector3d(s.real(-20, 20), s.real(-2, 2), s.real(-1, 1));
  o.angular = Eigen::Vector3d(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
  return o;
}
}  // namespace sensors
