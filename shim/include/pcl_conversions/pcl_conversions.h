// Stand-in for the used part of PCL.
#ifndef SHIM_PCL_CONVERSIONS_H_
#define SHIM_PCL_CONVERSIONS_H_
#include <cstdint>
#include <cstring>
#include <memory>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include <vector>
namespace pcl
{
struct PointXYZI
{
  float x = 0, y = 0, z = 0, intensity = 0;
};
template <class P>
struct PointCloud
{
  using Ptr = std::shared_ptr<PointCloud>;
  std::vector<P> points;
  std::uint32_t width = 0, height = 0;
  auto size() const { return points.size(); }
  auto empty() const { return points.empty(); }
  void push_back(const P & p) { emplace_back(p); }
  template <class... Ts>
  P & emplace_back(Ts &&... xs)
  {
    points.emplace_back(std::forward<Ts>(xs)...);
    width = static_cast<std::uint32_t>(points.size());
    height = 1;
    return points.back();
  }
  auto & operator[](std::size_t i) { return points[i]; }
  auto begin() { return points.begin(); }
  auto end() { return points.end(); }
};
template <class P>
void toROSMsg(const PointCloud<P> & c, sensor_msgs::msg::PointCloud2 & m)
{
  m.height = c.width * c.height ? c.height : 1;
  m.width = c.width * c.height ? c.width : static_cast<std::uint32_t>(c.points.size());
  m.point_step = sizeof(P);
  m.row_step = m.point_step * m.width;
  m.data.resize(c.points.size() * sizeof(P));
  if (!c.points.empty()) std::memcpy(m.data.data(), c.points.data(), m.data.size());
}
}  // namespace pcl
#endif
