// Vector arithmetic and tolerant number comparison.
#include <algorithm>
#include <arithmetic/floating_point/comparison.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/vector3/cross_2d.hpp>
#include <geometry/vector3/hypot.hpp>
#include <geometry/vector3/inner_product.hpp>
#include <geometry/vector3/internal_angle.hpp>
#include <geometry/vector3/is_finite.hpp>
#include <geometry/vector3/norm.hpp>
#include <geometry/vector3/normalize.hpp>
#include <geometry/vector3/operator.hpp>
#include <geometry/vector3/ros_msg_converter.hpp>
#include <geometry/vector3/scalar_to_direction_vector.hpp>
#include <geometry/vector3/truncate.hpp>
#include <geometry/vector3/vector3.hpp>

#include "geo.hpp"
using namespace geo;
namespace mg = math::geometry;
namespace ma = math::arithmetic;

template <class T>
T steps(T x, int n)
{
  for (; n > 0; --n) x = std::nextafter(x, std::numeric_limits<T>::infinity());
  for (; n < 0; ++n) x = std::nextafter(x, -std::numeric_limits<T>::infinity());
  return x;
}

template <class T>
void compare(vf::Src & s, vf::Case & c)
{
  const T a = s.boolean() ? static_cast<T>(s.real(-1e6, 1e6)) : static_cast<T>(std::ldexp(s.uniform(-2, 2), s.integer(-60, 60)));
  T b;
  switch (s.draw(4)) {
    case 0: b = steps(a, s.integer(-6, 6)); c.label("few ulps apart"); break;
    case 1: b = a; break;
    case 2: b = -a; break;
    default: b = static_cast<T>(s.real(-1e6, 1e6));
  }
  const T x = s.boolean() ? steps(b, s.integer(-6, 6)) : static_cast<T>(s.real(-1e6, 1e6));
  c.log << "a=" << a << " b=" << b << " x=" << x;
  if ((a != 0 && std::abs(a) < 1e-30) || (b != 0 && std::abs(b) < 1e-30)) throw vf::Discard{};
  if (a != b) c.nontrivial();
  const LD eps = std::numeric_limits<T>::epsilon(), A = a, B = b, X = x;
  const LD diff = std::abs(A - B), hi = std::max(std::abs(A), std::abs(B)), lo = std::min(std::abs(A), std::abs(B));
  // the exact difference may be rounded: judge only where rounding cannot matter
  const LD unit = std::numeric_limits<LD>::epsilon() * hi + eps * diff / 2;
  const auto judge = [&](bool got, LD left, LD right, bool when, const char * what) {
    if (std::abs(left - right) <= unit && left != right) return;  // undecidable after rounding
    c.require(got == when, what, " of ", a, " and ", b, " is ", got);
  };
  judge(ma::isApproximatelyEqualTo(a, b), diff, eps * hi, diff <= eps * hi, "approximate equality");
  judge(ma::isEssentiallyEqualTo(a, b), diff, eps * lo, diff <= eps * lo, "essential equality");
  judge(ma::isDefinitelyLessThan(a, b), diff, eps * hi, B - A > eps * hi, "definitely less");
  judge(ma::isDefinitelyGreaterThan(a, b), diff, eps * hi, A - B > eps * hi, "definitely greater");
  // laws
  const int n = ma::isApproximatelyEqualTo(a, b) + ma::isDefinitelyLessThan(a, b) + ma::isDefinitelyGreaterThan(a, b);
  c.require(n == 1, "exactly one of less, equal and greater must hold, ", n, " do for ", a, " and ", b);
  c.require(ma::isApproximatelyEqualTo(a, b) == ma::isApproximatelyEqualTo(b, a), "approximate equality is not symmetric");
  c.require(ma::isEssentiallyEqualTo(a, b) == ma::isEssentiallyEqualTo(b, a), "essential equality is not symmetric");
  c.require(ma::isDefinitelyLessThan(a, b) == ma::isDefinitelyGreaterThan(b, a), "less and greater are not mirror images");
  c.require(ma::isApproximatelyEqualTo(a, a) && ma::isEssentiallyEqualTo(a, a), "a value must equal itself: ", a);
  c.require(!ma::isEssentiallyEqualTo(a, b) || ma::isApproximatelyEqualTo(a, b), "essential equality must imply approximate equality");
  c.require(
    ma::isDefinitelyLessThan(a, b, x) == (ma::isDefinitelyLessThan(a, b) && ma::isDefinitelyLessThan(b, x)),
    "chained comparison of ", a, ", ", b, ", ", x);
  if (a != 0) c.require(ma::isDefinitelyLessThan(a, steps(a, 4)) && !ma::isDefinitelyLessThan(steps(a, 4), a), "4 ulps above must be definitely greater: ", a);
  if (a != 0) c.require(ma::isApproximatelyEqualTo(a, steps(a, 1)), "the next representable number must be approximately equal: ", a);
  (void)X;
}
VF_PROP("comparison of doubles", 160000, 4000000) { compare<double>(s, c); }
VF_PROP("comparison of floats", 80000, 2000000) { compare<float>(s, c); }

struct Other  // a vector-like type of the user
{
  double x, y, z;
};
struct WithW
{
  double x, y, z, w;
};
static_assert(mg::IsLikeVector3<Other>::value && mg::IsLikeVector3<Point>::value && mg::IsLikeVector3<Vec>::value);
static_assert(!mg::IsLikeVector3<WithW>::value && !mg::IsLikeVector3<Quat>::value);

double mag(vf::Src & s) { return s.chance(80) ? s.real(-1e4, 1e4) : std::ldexp(s.uniform(-2, 2), s.integer(-30, 30)); }

template <class A, class B>
void ops(vf::Case & c, const A & a, const B & b, double k)
{
  using namespace mg;
  const auto p = a + b;
  c.require(p.x == a.x + b.x && p.y == a.y + b.y && p.z == a.z + b.z, "sum is ", str(p));
  const auto m = a - b;
  c.require(m.x == a.x - b.x && m.y == a.y - b.y && m.z == a.z - b.z, "difference is ", str(m));
  const auto t = a * k;
  c.require(t.x == a.x * k && t.y == a.y * k && t.z == a.z * k, "product is ", str(t));
  if (k != 0) {
    const auto d = a / k;
    const auto ok = [&](double g, double n) { return std::abs(g - n / k) <= 1e-15 * std::abs(n / k); };
    c.require(ok(d.x, a.x) && ok(d.y, a.y) && ok(d.z, a.z), "quotient is ", str(d));
  }
  using Expected = std::conditional_t<std::is_same_v<A, Vec>, Vec, Point>;
  static_assert(std::is_same_v<std::decay_t<decltype(p)>, Expected> && std::is_same_v<std::decay_t<decltype(m)>, Expected> &&
                std::is_same_v<std::decay_t<decltype(t)>, Expected>);
  auto q = a;
  auto & r = (q += b);
  c.require(q.x == a.x + b.x && q.y == a.y + b.y && q.z == a.z + b.z && &r == &q, "compound sum is ", str(q));
  const Eigen::Vector3d e(b.x, b.y, b.z);
  const auto w = a + e;
  c.require(w.x == a.x + b.x && w.y == a.y + b.y && w.z == a.z + b.z, "sum with a column vector is ", str(w));
  const V3 A_ = ld(a), B_ = ld(b);
  const double scale = static_cast<double>(len(A_) * len(B_));
  c.require(std::abs(innerProduct(a, b) - dot(A_, B_)) <= 1e-14 * scale, "inner product is ", innerProduct(a, b));
  c.require(std::abs(cross2d(a, b) - cross(A_, B_)[2]) <= 1e-14 * scale, "planar cross product is ", cross2d(a, b));
  c.require(std::abs(cross2d(a, b) + cross2d(b, a)) <= 1e-14 * scale, "planar cross product is not antisymmetric");
  const LD d3 = len(A_ - B_);
  c.require(std::abs(hypot(a, b) - d3) <= 1e-14L * (len(A_) + len(B_)), "distance is ", hypot(a, b), " instead of ", static_cast<double>(d3));
  c.require(std::abs(norm(a) - len(A_)) <= 1e-14L * len(A_), "norm is ", norm(a));
  const bool same = std::abs(a.x - b.x) < 2.2e-16 && std::abs(a.y - b.y) < 2.2e-16 && std::abs(a.z - b.z) < 2.2e-16;
  const bool differ = std::abs(a.x - b.x) > 2.3e-16 || std::abs(a.y - b.y) > 2.3e-16 || std::abs(a.z - b.z) > 2.3e-16;
  if (same) c.require(a == b, "equal vectors compare different");
  if (differ) c.require(!(a == b), "different vectors compare equal");
}

VF_PROP("componentwise operations", 80000, 3000000)
{
  const Other a{mag(s), mag(s), mag(s)};
  Other b{mag(s), mag(s), mag(s)};
  if (s.chance(25)) {  // differ in at most one component
    b = a;
    if (const auto i = s.draw(4); i == 0) b.x = mag(s);
    else if (i == 1) b.y = mag(s);
    else if (i == 2) b.z = mag(s);
  }
  const double k = mag(s);
  c.log << str(a) << " " << str(b) << " k=" << k;
  if (k != 0 && (a.x != 0 || a.y != 0)) c.nontrivial();
  const Point pa = point(a.x, a.y, a.z), pb = point(b.x, b.y, b.z);
  const Vec va = vec(a.x, a.y, a.z), vb = vec(b.x, b.y, b.z);
  ops(c, pa, pb, k);
  ops(c, va, vb, k);
  ops(c, pa, vb, k);
  ops(c, va, pb, k);
  {
    using namespace mg;
    static_assert(std::is_same_v<decltype(a + b), Point>);
    const auto p = a + b;
    c.require(p.x == a.x + b.x && p.y == a.y + b.y && p.z == a.z + b.z, "sum of a user type is ", str(p));
  }
  const auto back = mg::castToPoint(mg::castToVec(pa));
  c.require(back.x == pa.x && back.y == pa.y && back.z == pa.z, "conversion to a vector and back gives ", str(back));
  const auto cv = mg::castToVec(pb);
  c.require(cv.x == pb.x && cv.y == pb.y && cv.z == pb.z, "conversion to a vector gives ", str(cv));
  const auto made = mg::vector3(a.x, a.y, a.z);
  c.require(made.x == a.x && made.y == a.y && made.z == a.z, "vector built from ", str(a), " is ", str(made));
}

VF_PROP("length-changing operations", 80000, 3000000)
{
  const double zero = s.chance(5) ? 0.0 : 1.0;
  const Vec v = vec(mag(s) * zero, mag(s) * zero, mag(s) * zero);
  const double max = std::abs(mag(s));
  c.log << str(v) << " max=" << max;
  const LD n = len(ld(v));
  if (n > 1e-15) {
    c.nontrivial();
    const auto u = mg::normalize(v);
    c.require(near(u, ld(v) * (1 / n), 1e-14), "normalized vector is ", str(u));
    const Point p = point(v.x, v.y, v.z);
    const auto up = mg::normalize(p);
    c.require(near(up, ld(v) * (1 / n), 1e-14), "normalized point is ", str(up));
  } else if (n < 2e-16) {
    VF_THROWS(common::SimulationError, mg::normalize(v));
  }
  const auto t = mg::truncate(v, max);
  if (n <= max) {
    c.require(t.x == v.x && t.y == v.y && t.z == v.z, "a vector within the limit must stay as it is, got ", str(t));
  } else {
    c.require(near(t, ld(v) * (max / n), static_cast<double>(1e-14L * (1 + max))), "vector cut to the limit is ", str(t));
    c.label("truncated");
  }
}

VF_PROP("angle between vectors", 80000, 3000000)
{
  const auto unit = [&] { return vec(mag(s), mag(s), mag(s)); };
  const Vec a = unit();
  Vec b;
  switch (s.draw(4)) {
    case 0: {
      const double k = s.real(0.01, 100) * (s.boolean() ? 1 : -1);
      b = vec(a.x * k, a.y * k, a.z * k);
      c.label("parallel");
      break;
    }
    case 1: b = vec(a.x + s.real(-1e-3, 1e-3), a.y + s.real(-1e-3, 1e-3), a.z); break;
    default: b = unit();
  }
  c.log << str(a) << " " << str(b);
  const LD na = len(ld(a)), nb = len(ld(b));
  if (na < 1e-6 || nb < 1e-6) {
    if (na == 0 || nb == 0) VF_THROWS(common::SimulationError, mg::getInternalAngle(a, b));
    return;
  }
  c.nontrivial();
  const double expected = static_cast<double>(std::atan2(len(cross(ld(a), ld(b))), dot(ld(a), ld(b))));
  const double got = mg::getInternalAngle(a, b);
  c.require(std::abs(got - expected) <= 1e-7, "angle is ", got, " instead of ", expected);
  c.require(mg::getInternalAngle(b, a) == got, "angle is not symmetric");
  c.require(got >= 0 && got <= 3.1415926535897936, "angle out of range: ", got);
}

VF_PROP("finiteness test", 20000, 400000)
{
  const double bad[] = {INFINITY, -INFINITY, NAN};
  double v[3];
  bool finite = true;
  for (auto & x : v) {
    if (s.chance(20)) {
      x = bad[s.index(3)];
      finite = false;
    } else {
      x = s.anyFinite();
    }
  }
  c.log << v[0] << " " << v[1] << " " << v[2];
  if (!finite) c.nontrivial();
  c.require(mg::isfinite(point(v[0], v[1], v[2])) == finite, "point is reported ", !finite);
  c.require(mg::isfinite(vec(v[0], v[1], v[2])) == finite, "vector is reported ", !finite);
}

VF_PROP("vector of a magnitude along an orientation", 60000, 2000000)
{
  const Quat q = genQuat(s);
  const double m = s.real(-50, 50);
  c.log << str(q) << " m=" << m;
  const V3 x = rotate(q, {1, 0, 0}) * m;
  if (std::abs(x[2]) > 0 && m != 0) c.nontrivial();
  const auto v = mg::scalarToDirectionVector(m, q);
  // Euler angles lose half the digits next to a vertical direction
  c.require(near(v, x, std::abs(x[2]) > 0.999 * std::abs(m) ? 1e-4 : 1e-7), "vector is ", str(v), " instead of ", str(x));
}
