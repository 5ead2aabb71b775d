// Reference cubic curve and its crossings with lines, in extended precision.
#ifndef CURVE_HPP_
#define CURVE_HPP_
#include "geo.hpp"

namespace geo
{
struct Cubic
{
  LD c[3][4];  // per axis: a t^3 + b t^2 + c t + d
  V3 at(LD t) const { V3 r; for (int i = 0; i < 3; ++i) r[i] = ((c[i][0] * t + c[i][1]) * t + c[i][2]) * t + c[i][3]; return r; }
  V3 d1(LD t) const { V3 r; for (int i = 0; i < 3; ++i) r[i] = (3 * c[i][0] * t + 2 * c[i][1]) * t + c[i][2]; return r; }
  V3 d2(LD t) const { V3 r; for (int i = 0; i < 3; ++i) r[i] = 6 * c[i][0] * t + 2 * c[i][1]; return r; }
};

struct Crossing
{
  LD t, u;        // on the curve and along the segment
  bool distinct;  // transversal and away from other crossings of the line
};
// crossings of the infinite line a-b, by subdivision in extended precision
inline std::vector<Crossing> crossings(const Cubic & r, const Point & a, const Point & b, bool & delicate)
{
  const LD ex = b.x - static_cast<LD>(a.x), ey = b.y - static_cast<LD>(a.y), e = std::hypot(ex, ey);
  const auto f = [&](LD t) { const V3 p = r.at(t); return (ex * (p[1] - a.y) - ey * (p[0] - a.x)) / e; };
  std::vector<Crossing> out;
  constexpr int N = 400;
  delicate = false;
  LD last = f(-0.05L), scale = 0;
  for (int i = 1; i <= N; ++i) {
    LD lo = -0.05L + (i - 1) * 1.1L / N, hi = -0.05L + i * 1.1L / N;
    const LD v = f(hi);
    scale = std::max(scale, std::abs(v));
    if ((last < 0) != (v < 0)) {
      LD flo = last;
      for (int k = 0; k < 60; ++k) {
        const LD m = (lo + hi) / 2, fm = f(m);
        if ((flo < 0) != (fm < 0)) hi = m;
        else { lo = m; flo = fm; }
      }
      const LD t = (lo + hi) / 2;
      const V3 p = r.at(t);
      out.push_back({t, ((p[0] - a.x) * ex + (p[1] - a.y) * ey) / (e * e), true});
    }
    last = v;
  }
  // the same line touched or crossed twice within a short stretch
  for (auto & x : out) {
    const V3 d = r.d1(x.t);
    const LD rate = std::abs(ex * d[1] - ey * d[0]) / e;
    if (rate < 0.1L * (1 + scale)) x.distinct = false;
    for (auto & y : out) {
      if (&x != &y && std::abs(x.t - y.t) < 0.1L) x.distinct = false;
    }
    if (!x.distinct) delicate = true;
  }
  // a nearby stretch where the curve runs along the line
  for (int i = 0; i <= N; ++i) {
    const LD t = -0.05L + i * 1.1L / N;
    const V3 d = r.d1(t);
    if (std::abs(f(t)) < 0.02L * (1 + scale) && std::abs(ex * d[1] - ey * d[0]) / e < 0.1L * (1 + scale)) delicate = true;
  }
  return out;
}

template <class Set>
std::string list(const Set & v)
{
  std::ostringstream ss;
  ss << std::setprecision(17) << "{";
  for (auto x : v) ss << " " << x;
  ss << " }";
  return ss.str();
}
// what a set of normalized positions must look like for one segment
// the accuracy of a crossing: the equation solver loses digits if the leading coefficient almost vanishes
inline LD accuracy(const Cubic & r, const Point & a, const Point & b)
{
  const LD ex = b.x - static_cast<LD>(a.x), ey = b.y - static_cast<LD>(a.y), e = std::hypot(ex, ey);
  const auto k = [&](int i) { return std::abs(ex * r.c[1][i] - ey * r.c[0][i]) / e; };
  return 1e-12L * (k(1) + k(2) + 1) < k(0) && k(0) < 1e-3L * (k(1) + k(2) + 1) ? 5e-3L : 5e-4L;
}
inline void judge(vf::Case & c, const Cubic & r, const Point & a, const Point & b, const std::set<double> & got, bool both_ways)
{
  bool delicate;
  const auto expected = crossings(r, a, b, delicate);
  const LD e = std::hypot(b.x - a.x, b.y - a.y), tolerance = accuracy(r, a, b);
  for (const auto & x : expected) {
    if (x.distinct && !delicate && x.t > 0.001L && x.t < 0.999L && x.u > 0.001L && x.u < 0.999L) {
      bool ok = false;
      for (double g : got) ok |= std::abs(g - x.t) < tolerance;
      c.require(ok, "the curve crosses the segment at ", static_cast<double>(x.t), " but got ", list(got));
      c.nontrivial();
    }
  }
  if (!both_ways) return;
  for (double g : got) {
    c.require(g >= 0 && g <= 1, "crossing at ", g, " is off the curve");
    if (delicate) continue;
    const V3 p = r.at(g);
    const LD u = ((p[0] - a.x) * (b.x - a.x) + (p[1] - a.y) * (b.y - a.y)) / (e * e);
    const LD off = std::abs((b.x - a.x) * (p[1] - a.y) - (b.y - a.y) * (p[0] - a.x)) / e;
    c.require(u > -1e-3L && u < 1.001L && off < (tolerance > 1e-3L ? 0.1L : 1e-2L), "the crossing at ", g, " is not on the segment: ", static_cast<double>(u), " along, ", static_cast<double>(off), " beside, got ", list(got));
  }
}

}  // namespace geo
#endif
