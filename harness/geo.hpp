// Generators and reference arithmetic shared by the geometric harnesses.
#ifndef GEO_HPP_
#define GEO_HPP_
#include <array>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/vector3.hpp>

#include "vf.hpp"

namespace geo
{
using Point = geometry_msgs::msg::Point;
using Vec = geometry_msgs::msg::Vector3;
using Quat = geometry_msgs::msg::Quaternion;
using Pose = geometry_msgs::msg::Pose;
using LD = long double;
using V3 = std::array<LD, 3>;
using M3 = std::array<V3, 3>;

inline Point point(double x, double y, double z = 0)
{
  Point p;
  p.x = x;
  p.y = y;
  p.z = z;
  return p;
}
inline Vec vec(double x, double y, double z = 0)
{
  Vec p;
  p.x = x;
  p.y = y;
  p.z = z;
  return p;
}
inline Quat quat(double x, double y, double z, double w)
{
  Quat q;
  q.x = x;
  q.y = y;
  q.z = z;
  q.w = w;
  return q;
}
inline double coord(vf::Src & s, double r = 100) { return s.real(-r, r); }
inline Point genPoint(vf::Src & s, double r = 100) { return point(coord(s, r), coord(s, r), coord(s, r)); }
inline Vec genVec(vf::Src & s, double r = 100) { return vec(coord(s, r), coord(s, r), coord(s, r)); }
// a unit quaternion: axis rotations, half turns, nearly equal ones and arbitrary ones
inline Quat rpyQuat(double roll, double pitch, double yaw)
{
  const double cy = std::cos(yaw / 2), sy = std::sin(yaw / 2), cp = std::cos(pitch / 2),
               sp = std::sin(pitch / 2), cr = std::cos(roll / 2), sr = std::sin(roll / 2);
  return quat(
    sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy,
    cr * cp * cy + sr * sp * sy);
}
inline double angle(vf::Src & s, double max = M_PI)
{
  switch (s.draw(4)) {
    case 0: return 0;
    case 1: return (static_cast<int>(s.draw(9)) - 4) * max / 4;
    default: return s.uniform(-max, max);
  }
}
inline Quat genQuat(vf::Src & s)
{
  switch (s.draw(4)) {
    case 0: return quat(0, 0, 0, 1);
    case 1: return rpyQuat(0, 0, angle(s));
    case 2: return rpyQuat(angle(s), angle(s, M_PI / 2), angle(s));
    default: {
      double v[4], n = 0;
      for (auto & x : v) {
        x = s.uniform(-1, 1);
        n += x * x;
      }
      if (n < 1e-4) return quat(0, 0, 0, 1);
      n = std::sqrt(n);
      return quat(v[0] / n, v[1] / n, v[2] / n, v[3] / n);
    }
  }
}
inline Pose genPose(vf::Src & s, double r = 100)
{
  Pose p;
  p.position = genPoint(s, r);
  p.orientation = genQuat(s);
  return p;
}
template <class T>
V3 ld(const T & v)
{
  return {static_cast<LD>(v.x), static_cast<LD>(v.y), static_cast<LD>(v.z)};
}
inline V3 operator+(V3 a, const V3 & b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator-(V3 a, const V3 & b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator*(V3 a, LD k) { return {a[0] * k, a[1] * k, a[2] * k}; }
inline LD dot(const V3 & a, const V3 & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline LD len(const V3 & a) { return std::sqrt(dot(a, a)); }
inline V3 cross(const V3 & a, const V3 & b)
{
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
// rotation of v by a unit quaternion, in extended precision
inline V3 rotate(const Quat & q, const V3 & v)
{
  const V3 u{q.x, q.y, q.z};
  const V3 t = cross(u, v) * 2;
  return v + t * static_cast<LD>(q.w) + cross(u, t);
}
inline V3 apply(const Pose & p, const V3 & v) { return rotate(p.orientation, v) + ld(p.position); }
inline V3 unapply(const Pose & p, const V3 & v)
{
  return rotate(quat(-p.orientation.x, -p.orientation.y, -p.orientation.z, p.orientation.w), v - ld(p.position));
}
template <class T>
bool near(const T & p, const V3 & v, double tol)
{
  return std::abs(p.x - v[0]) <= tol && std::abs(p.y - v[1]) <= tol && std::abs(p.z - v[2]) <= tol;
}
inline bool near(const V3 & a, const V3 & v, double tol)
{
  return std::abs(a[0] - v[0]) <= tol && std::abs(a[1] - v[1]) <= tol && std::abs(a[2] - v[2]) <= tol;
}
template <class T>
std::string str(const T & v)
{
  std::ostringstream ss;
  ss << std::setprecision(17) << "(" << v.x << ", " << v.y << ", " << v.z << ")";
  return ss.str();
}
inline std::string str(const Quat & v)
{
  std::ostringstream ss;
  ss << std::setprecision(17) << "(" << v.x << ", " << v.y << ", " << v.z << ", w " << v.w << ")";
  return ss.str();
}
inline std::string str(const Pose & v) { return str(v.position) + str(v.orientation); }
inline std::string str(const V3 & v)
{
  std::ostringstream ss;
  ss << std::setprecision(17) << "(" << v[0] << ", " << v[1] << ", " << v[2] << ")";
  return ss.str();
}
}  // namespace geo
#endif
