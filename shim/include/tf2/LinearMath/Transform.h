// Minimal stand-in for tf2's LinearMath (same conventions as tf2/Bullet).
#pragma once
#include <algorithm>
#include <cmath>
namespace tf2
{
using tf2Scalar = double;
class Vector3
{
public:
  double m_[4]{0, 0, 0, 0};
  Vector3() = default;
  Vector3(double x, double y, double z) { m_[0] = x; m_[1] = y; m_[2] = z; }
  double x() const { return m_[0]; }
  double y() const { return m_[1]; }
  double z() const { return m_[2]; }
  double getX() const { return m_[0]; }
  double getY() const { return m_[1]; }
  double getZ() const { return m_[2]; }
  void setX(double v) { m_[0] = v; }
  void setY(double v) { m_[1] = v; }
  void setZ(double v) { m_[2] = v; }
  void setValue(double x, double y, double z) { m_[0] = x; m_[1] = y; m_[2] = z; }
  double operator[](int i) const { return m_[i]; }
  Vector3 operator+(const Vector3 & o) const { return {m_[0] + o.m_[0], m_[1] + o.m_[1], m_[2] + o.m_[2]}; }
  Vector3 operator-(const Vector3 & o) const { return {m_[0] - o.m_[0], m_[1] - o.m_[1], m_[2] - o.m_[2]}; }
  Vector3 operator-() const { return {-m_[0], -m_[1], -m_[2]}; }
  Vector3 operator*(double s) const { return {m_[0] * s, m_[1] * s, m_[2] * s}; }
  Vector3 operator/(double s) const { return *this * (1.0 / s); }
  Vector3 & operator+=(const Vector3 & o) { return *this = *this + o; }
  double dot(const Vector3 & o) const { return m_[0] * o.m_[0] + m_[1] * o.m_[1] + m_[2] * o.m_[2]; }
  Vector3 cross(const Vector3 & o) const
  {
    return {m_[1] * o.m_[2] - m_[2] * o.m_[1], m_[2] * o.m_[0] - m_[0] * o.m_[2], m_[0] * o.m_[1] - m_[1] * o.m_[0]};
  }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Vector3 & normalize() { return *this = *this / length(); }
  Vector3 normalized() const { return *this / length(); }
};
inline Vector3 operator*(double s, const Vector3 & v) { return v * s; }

class Quaternion
{
  double x_{0}, y_{0}, z_{0}, w_{1};

public:
  Quaternion() = default;
  Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  Quaternion(const Vector3 & axis, double angle) { setRotation(axis, angle); }
  void setRotation(const Vector3 & axis, double angle)
  {
    const double d = axis.length(), s = std::sin(angle * 0.5) / d;
    x_ = axis.x() * s; y_ = axis.y() * s; z_ = axis.z() * s; w_ = std::cos(angle * 0.5);
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    x_ = sr * cp * cy - cr * sp * sy;
    y_ = cr * sp * cy + sr * cp * sy;
    z_ = cr * cp * sy - sr * sp * cy;
    w_ = cr * cp * cy + sr * sp * sy;
  }
  double x() const { return x_; }
  double y() const { return y_; }
  double z() const { return z_; }
  double w() const { return w_; }
  double getX() const { return x_; }
  double getY() const { return y_; }
  double getZ() const { return z_; }
  double getW() const { return w_; }
  void setX(double v) { x_ = v; }
  void setY(double v) { y_ = v; }
  void setZ(double v) { z_ = v; }
  void setW(double v) { w_ = v; }
  void setValue(double x, double y, double z, double w) { x_ = x; y_ = y; z_ = z; w_ = w; }
  double dot(const Quaternion & o) const { return x_ * o.x_ + y_ * o.y_ + z_ * o.z_ + w_ * o.w_; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion & normalize() { const double l = length(); x_ /= l; y_ /= l; z_ /= l; w_ /= l; return *this; }
  Quaternion normalized() const { auto q = *this; return q.normalize(); }
  Quaternion inverse() const { return {-x_, -y_, -z_, w_}; }
  Quaternion operator*(const Quaternion & q) const
  {
    return {
      w_ * q.x_ + x_ * q.w_ + y_ * q.z_ - z_ * q.y_, w_ * q.y_ + y_ * q.w_ + z_ * q.x_ - x_ * q.z_,
      w_ * q.z_ + z_ * q.w_ + x_ * q.y_ - y_ * q.x_, w_ * q.w_ - x_ * q.x_ - y_ * q.y_ - z_ * q.z_};
  }
  Quaternion & operator*=(const Quaternion & q) { return *this = *this * q; }
  double getAngle() const { return 2.0 * std::acos(std::clamp(w_, -1.0, 1.0)); }
  double angleShortestPath(const Quaternion & q) const
  {
    const double s = std::sqrt(length2() * q.length2());
    const double d = dot(q);
    return (d < 0 ? std::acos(std::clamp(-d / s, -1.0, 1.0)) : std::acos(std::clamp(d / s, -1.0, 1.0))) * 2.0;
  }
};
inline Vector3 quatRotate(const Quaternion & q, const Vector3 & v)
{
  const Quaternion p(v.x(), v.y(), v.z(), 0.0);
  const Quaternion r = (q * p) * q.inverse();
  return {r.x(), r.y(), r.z()};
}

class Matrix3x3
{
  Vector3 r_[3];

public:
  Matrix3x3() { r_[0] = {1, 0, 0}; r_[1] = {0, 1, 0}; r_[2] = {0, 0, 1}; }
  explicit Matrix3x3(const Quaternion & q) { setRotation(q); }
  Matrix3x3(double a, double b, double c, double d, double e, double f, double g, double h, double i)
  { r_[0] = {a, b, c}; r_[1] = {d, e, f}; r_[2] = {g, h, i}; }
  void setRotation(const Quaternion & q)
  {
    const double d = q.length2(), s = 2.0 / d;
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    const double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    r_[0] = {1.0 - (yy + zz), xy - wz, xz + wy};
    r_[1] = {xy + wz, 1.0 - (xx + zz), yz - wx};
    r_[2] = {xz - wy, yz + wx, 1.0 - (xx + yy)};
  }
  void setRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); setRotation(q); }
  const Vector3 & operator[](int i) const { return r_[i]; }
  Vector3 & operator[](int i) { return r_[i]; }
  Vector3 operator*(const Vector3 & v) const { return {r_[0].dot(v), r_[1].dot(v), r_[2].dot(v)}; }
  Matrix3x3 transpose() const
  {
    return {r_[0].x(), r_[1].x(), r_[2].x(), r_[0].y(), r_[1].y(), r_[2].y(), r_[0].z(), r_[1].z(), r_[2].z()};
  }
  Matrix3x3 inverse() const { return transpose(); }
  Matrix3x3 operator*(const Matrix3x3 & o) const
  {
    const auto t = o.transpose();
    return {r_[0].dot(t[0]), r_[0].dot(t[1]), r_[0].dot(t[2]), r_[1].dot(t[0]), r_[1].dot(t[1]), r_[1].dot(t[2]),
            r_[2].dot(t[0]), r_[2].dot(t[1]), r_[2].dot(t[2])};
  }
  void getRPY(double & roll, double & pitch, double & yaw, unsigned = 1) const
  {
    if (std::fabs(r_[2].x()) >= 1) {
      yaw = 0;
      const double delta = std::atan2(r_[2].y(), r_[2].z());
      if (r_[2].x() < 0) { pitch = M_PI / 2.0; roll = delta; }
      else { pitch = -M_PI / 2.0; roll = delta; }
    } else {
      pitch = -std::asin(r_[2].x());
      roll = std::atan2(r_[2].y() / std::cos(pitch), r_[2].z() / std::cos(pitch));
      yaw = std::atan2(r_[1].x() / std::cos(pitch), r_[0].x() / std::cos(pitch));
    }
  }
  void getRotation(Quaternion & q) const
  {
    const double trace = r_[0].x() + r_[1].y() + r_[2].z();
    double t[4];
    if (trace > 0.0) {
      double s = std::sqrt(trace + 1.0);
      t[3] = s * 0.5; s = 0.5 / s;
      t[0] = (r_[2].y() - r_[1].z()) * s; t[1] = (r_[0].z() - r_[2].x()) * s; t[2] = (r_[1].x() - r_[0].y()) * s;
    } else {
      const int i = r_[0].x() < r_[1].y() ? (r_[1].y() < r_[2].z() ? 2 : 1) : (r_[0].x() < r_[2].z() ? 2 : 0);
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(r_[i][i] - r_[j][j] - r_[k][k] + 1.0);
      t[i] = s * 0.5; s = 0.5 / s;
      t[3] = (r_[k][j] - r_[j][k]) * s; t[j] = (r_[j][i] + r_[i][j]) * s; t[k] = (r_[k][i] + r_[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
};

class Transform
{
  Matrix3x3 basis_;
  Vector3 origin_;

public:
  Transform() = default;
  explicit Transform(const Quaternion & q, const Vector3 & c = Vector3()) : basis_(q), origin_(c) {}
  Transform(const Matrix3x3 & b, const Vector3 & c) : basis_(b), origin_(c) {}
  void setOrigin(const Vector3 & o) { origin_ = o; }
  void setRotation(const Quaternion & q) { basis_.setRotation(q); }
  const Vector3 & getOrigin() const { return origin_; }
  const Matrix3x3 & getBasis() const { return basis_; }
  Quaternion getRotation() const { Quaternion q; basis_.getRotation(q); return q; }
  Transform inverse() const { const auto inv = basis_.transpose(); return {inv, inv * -origin_}; }
  Transform operator*(const Transform & t) const { return {basis_ * t.basis_, (*this)(t.origin_)}; }
  Vector3 operator()(const Vector3 & v) const { return basis_ * v + origin_; }
  Vector3 operator*(const Vector3 & v) const { return (*this)(v); }
};
inline void getEulerYPR() {}
}  // namespace tf2
