// Real roots of linear, quadratic and cubic polynomials in a range.
#include <algorithm>
#include <geometry/solver/polynomial_solver.hpp>
#include <scenario_simulator_exception/exception.hpp>

#include "vf.hpp"
using math::geometry::PolynomialSolver;
using LD = long double;
const PolynomialSolver solver;

std::string str(const std::vector<double> & v)
{
  std::ostringstream ss;
  ss << std::setprecision(17) << "{";
  for (auto x : v) ss << " " << x;
  ss << " }";
  return ss.str();
}
// every expected root (well inside or well outside the range) is decided; solutions must be in range
void judge(vf::Case & c, const std::vector<double> & got, const std::vector<double> & roots, double lo, double hi, double tol)
{
  for (double g : got) {
    c.require(lo <= g && g <= hi, "solution ", g, " is out of [", lo, ", ", hi, "]: ", str(got));
    bool ok = false;
    for (double r : roots) ok |= std::abs(r - g) <= tol + 2e-7;
    c.require(ok, "solution ", g, " is no root, the roots are ", str(roots), ", got ", str(got));
  }
  for (double r : roots) {
    if (r < lo || r > hi) continue;
    bool ok = false;
    for (double g : got) ok |= std::abs(r - g) <= tol + 2e-7;
    c.require(ok, "root ", r, " in [", lo, ", ", hi, "] was not found, got ", str(got));
  }
}
void range(vf::Src & s, double & lo, double & hi)
{
  lo = 0;
  hi = 1;
  if (s.boolean()) {
    lo = s.real(-20, 20);
    hi = lo + s.real(0, 20);
  }
}
double root(vf::Src & s, double lo, double hi)
{
  switch (s.draw(5)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return s.uniform(-30, 30);
    default: return s.uniform(lo, hi);
  }
}
double lead(vf::Src & s) { return (s.boolean() ? 1 : -1) * s.real(0.01, 50); }

VF_PROP("values of polynomials", 40000, 1000000)
{
  const double a = s.real(-50, 50), b = s.real(-50, 50), d = s.real(-50, 50), e = s.real(-50, 50), t = s.real(-10, 10);
  c.log << a << " " << b << " " << d << " " << e << " t=" << t;
  if (t != 0 && a != 0) c.nontrivial();
  const LD T = t;
  c.require(vf::close(solver.linear(a, b, t), a * T + b, 1e-12, 1e-9), "linear: ", solver.linear(a, b, t));
  c.require(vf::close(solver.quadratic(a, b, d, t), (a * T + b) * T + d, 1e-12, 1e-9), "quadratic: ", solver.quadratic(a, b, d, t));
  c.require(vf::close(solver.cubic(a, b, d, e, t), ((a * T + b) * T + d) * T + e, 1e-12, 1e-8), "cubic: ", solver.cubic(a, b, d, e, t));
}

VF_PROP("linear equations", 60000, 2000000)
{
  double lo, hi;
  range(s, lo, hi);
  const double a = s.chance(10) ? s.uniform(-1e-7, 1e-7) : lead(s);
  const double r = root(s, lo, hi);
  const double b = std::abs(a) <= 1e-7 ? s.pick({0.0, 1e-8, 1.0, -3.0}) : -a * r;
  c.log << a << " x + " << b << " in [" << lo << ", " << hi << "]";
  if (std::abs(a) <= 1e-7) {
    c.label("degenerate");
    if (std::abs(b) <= 1e-7) {
      VF_THROWS(common::SimulationError, solver.solveLinearEquation(a, b, lo, hi));
    } else {
      c.require(solver.solveLinearEquation(a, b, lo, hi).empty(), "an equation without x has a solution");
    }
    return;
  }
  if (r >= lo && r <= hi) c.nontrivial();
  judge(c, solver.solveLinearEquation(a, b, lo, hi), {r}, lo, hi, 1e-9);
  if (lo == 0 && hi == 1) c.require(solver.solveLinearEquation(a, b) == solver.solveLinearEquation(a, b, 0, 1), "the default range is not [0, 1]");
}

VF_PROP("quadratic equations", 80000, 3000000)
{
  double lo, hi;
  range(s, lo, hi);
  const double a = lead(s);
  std::vector<double> roots;
  double b, d;
  if (s.chance(20)) {  // no real root: (x - p)^2 + q^2
    const double p = s.uniform(-20, 20), q = s.uniform(0.1, 10);
    b = -2 * a * p;
    d = a * (p * p + q * q);
    c.label("no real root");
  } else {
    const double p = root(s, lo, hi), q = s.chance(20) ? p : root(s, lo, hi);
    b = -a * (p + q);
    d = a * p * q;
    roots = {p, q};
    for (double r : roots) {
      if (r >= lo && r <= hi) c.nontrivial();
    }
  }
  c.log << a << " x^2 + " << b << " x + " << d << " in [" << lo << ", " << hi << "] roots " << str(roots);
  // a discriminant below the tolerance of 1e-7 merges two roots
  const double merged = std::sqrt(2e-7) / std::abs(a);
  const double gap = roots.size() == 2 ? std::abs(roots[0] - roots[1]) : 1e9;
  const double tol = roots.empty() ? 0 : (gap < 4 * merged + 1e-4 ? merged + 1e-5 : 1e-8);
  if (!roots.empty() && gap < 4 * merged + 1e-4) {
    c.label("double root");
    // a double root at an end may be moved out by rounding, and a root in the middle may vanish: judge solutions only
    for (double g : solver.solveQuadraticEquation(a, b, d, lo, hi)) {
      c.require(lo <= g && g <= hi, "solution ", g, " is out of range");
      c.require(std::abs(g - roots[0]) < tol + gap, "solution ", g, " is no root");
    }
    if (gap == 0 && roots[0] > lo + 0.1 && roots[0] < hi - 0.1 && std::abs(a) < 1) {
      c.require(!solver.solveQuadraticEquation(a, b, d, lo, hi).empty(), "the double root ", roots[0], " was not found");
    }
    return;
  }
  judge(c, solver.solveQuadraticEquation(a, b, d, lo, hi), roots, lo, hi, tol);
}

VF_PROP("cubic equations", 120000, 5000000)
{
  double lo, hi;
  range(s, lo, hi);
  const double a = lead(s);
  std::vector<double> roots;
  LD b, d, e;
  double separation = 1e9;
  const bool single = s.chance(35);
  if (single) {  // one real root, and a conjugate pair p +- qi
    const double r = root(s, lo, hi), p = s.uniform(-20, 20), q = s.uniform(0.3, 10);
    const LD P = p, Q = q, R = r;
    b = -a * (R + 2 * P);
    d = a * (P * P + Q * Q + 2 * P * R);
    e = -a * R * (P * P + Q * Q);
    roots = {r};
    c.label("one real root");
  } else {
    const double p = root(s, lo, hi), q = root(s, lo, hi), r = root(s, lo, hi);
    const LD P = p, Q = q, R = r;
    b = -a * (P + Q + R);
    d = a * (P * Q + Q * R + R * P);
    e = -a * P * Q * R;
    roots = {p, q, r};
    separation = std::min({std::abs(p - q), std::abs(q - r), std::abs(r - p)});
  }
  const double B = static_cast<double>(b), D = static_cast<double>(d), E = static_cast<double>(e);
  c.log << a << " x^3 + " << B << " x^2 + " << D << " x + " << E << " in [" << lo << ", " << hi << "] roots " << str(roots);
  const auto got = solver.solveCubicEquation(a, B, D, E, lo, hi);
  for (double g : got) c.require(lo <= g && g <= hi, "solution ", g, " is out of range or not a number: ", str(got));
  if (separation < 0.5) {
    c.label("nearly multiple root");
    for (double g : got) {
      bool ok = false;
      for (double r : roots) ok |= std::abs(g - r) < 0.1;
      c.require(ok, "solution ", g, " is no root: ", str(roots));
    }
    // the well separated root of the three is found all the same
    return;
  }
  for (double r : roots) {
    if (r >= lo && r <= hi) c.nontrivial();
  }
  judge(c, got, roots, lo, hi, 1e-6);
}

VF_PROP("cubic equations with a flat or steep middle", 60000, 2000000)
{
  double lo, hi;
  range(s, lo, hi);
  const double r = root(s, lo, hi);
  // conjugate pair p +- qi close to the real root: the cubic is monotonic
  const double q = s.pick({0.0, 1e-3, 1e-2, 0.1, 1.0, 5.0}) * s.uniform(0.5, 1);
  const double p = r + (q == 0 ? 0 : s.uniform(-1.6, 1.6) * q);
  const LD P = p, Q = q, R = r;
  const double a = lead(s);
  const double B = static_cast<double>(-a * (R + 2 * P)), D = static_cast<double>(a * (P * P + Q * Q + 2 * P * R)), E = static_cast<double>(-a * R * (P * P + Q * Q));
  c.log << a << " x^3 + " << B << " x^2 + " << D << " x + " << E << " in [" << lo << ", " << hi << "] root " << r;
  const auto got = solver.solveCubicEquation(a, B, D, E, lo, hi);
  // a root at the very end may be moved out of the range by more than the tolerance
  const bool inside = r > lo + 0.05 && r < hi - 0.05;
  if (inside) {
    c.nontrivial();
    c.require(!got.empty(), "the root ", r, " was not found");
  }
  for (double g : got) c.require(lo <= g && g <= hi && std::abs(g - r) < 0.1, "solution ", g, " is no root");
}

VF_PROP("vanishing leading coefficients", 40000, 1000000)
{
  double lo, hi;
  range(s, lo, hi);
  const double tiny = s.uniform(-1e-7, 1e-7) * (s.boolean() ? 0 : 1);
  const double a = lead(s), b = s.real(-50, 50), d = s.real(-50, 50);
  c.log << tiny << " " << a << " " << b << " " << d << " in [" << lo << ", " << hi << "]";
  c.nontrivial();
  c.require(
    solver.solveCubicEquation(tiny, a, b, d, lo, hi) == solver.solveQuadraticEquation(a, b, d, lo, hi),
    "a cubic equation without a cubic term is no quadratic one");
  c.require(
    solver.solveQuadraticEquation(tiny, a, b, lo, hi) == solver.solveLinearEquation(a, b, lo, hi),
    "a quadratic equation without a quadratic term is no linear one");
}

VF_PROP("tolerant equality of the solver", 20000, 400000)
{
  const double x = s.real(-100, 100), e = s.uniform(0, 3e-7);
  c.log << x << " " << e;
  c.nontrivial();
  if (e < 0.99e-7) c.require(solver.isApproximatelyEqualTo(x, x + e) && solver.isApproximatelyEqualTo(x + e, x), "values within the tolerance differ");
  if (e > 1.01e-7) c.require(!solver.isApproximatelyEqualTo(x, x + e) && !solver.isApproximatelyEqualTo(x + e, x), "values beyond the tolerance are equal");
}
