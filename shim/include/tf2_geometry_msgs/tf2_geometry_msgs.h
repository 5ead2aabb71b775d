#pragma once
#include <tf2/LinearMath/Transform.h>

#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/transform.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/vector3.hpp>
namespace tf2
{
inline void fromMsg(const geometry_msgs::msg::Point & i, Vector3 & o) { o = Vector3(i.x, i.y, i.z); }
inline void fromMsg(const geometry_msgs::msg::Vector3 & i, Vector3 & o) { o = Vector3(i.x, i.y, i.z); }
inline void fromMsg(const geometry_msgs::msg::Quaternion & i, Quaternion & o) { o = Quaternion(i.x, i.y, i.z, i.w); }
inline void fromMsg(const geometry_msgs::msg::Pose & i, Transform & o)
{
  o = Transform(
    Quaternion(i.orientation.x, i.orientation.y, i.orientation.z, i.orientation.w),
    Vector3(i.position.x, i.position.y, i.position.z));
}
inline void fromMsg(const geometry_msgs::msg::Transform & i, Transform & o)
{
  o = Transform(
    Quaternion(i.rotation.x, i.rotation.y, i.rotation.z, i.rotation.w),
    Vector3(i.translation.x, i.translation.y, i.translation.z));
}
inline geometry_msgs::msg::Vector3 toMsg(const Vector3 & i)
{
  geometry_msgs::msg::Vector3 o;
  o.x = i.x(); o.y = i.y(); o.z = i.z();
  return o;
}
inline geometry_msgs::msg::Point & toMsg(const Vector3 & i, geometry_msgs::msg::Point & o)
{
  o.x = i.x(); o.y = i.y(); o.z = i.z();
  return o;
}
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & i)
{
  geometry_msgs::msg::Quaternion o;
  o.x = i.x(); o.y = i.y(); o.z = i.z(); o.w = i.w();
  return o;
}
inline geometry_msgs::msg::Pose & toMsg(const Transform & i, geometry_msgs::msg::Pose & o)
{
  toMsg(i.getOrigin(), o.position);
  o.orientation = toMsg(i.getRotation());
  return o;
}
inline geometry_msgs::msg::Transform toMsg(const Transform & i)
{
  geometry_msgs::msg::Transform o;
  o.translation = toMsg(i.getOrigin());
  o.rotation = toMsg(i.getRotation());
  return o;
}
}  // namespace tf2
