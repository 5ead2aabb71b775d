#pragma once
#include <rclcpp/rclcpp.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <tf2_geometry_msgs/tf2_geometry_msgs.hpp>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  template <typename... Ts> explicit TransformBroadcaster(Ts &&...) {}
  geometry_msgs::msg::TransformStamped last;
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { last = t; }
};
using StaticTransformBroadcaster = TransformBroadcaster;
class Buffer
{
public:
  template <typename... Ts> explicit Buffer(Ts &&...) {}
};
class TransformListener
{
public:
  template <typename... Ts> explicit TransformListener(Ts &&...) {}
};
}  // namespace tf2_ros
