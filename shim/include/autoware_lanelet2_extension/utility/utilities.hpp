#include <minilanelet/lanelet.hpp>
#include <rclcpp/rclcpp.hpp>
