// Occupancy grids: footprints and shadows on the grid against convex geometry, traversal of grid lines, and the grid sensor's messages.
#include <simple_sensor_simulator/exception.hpp>
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp>
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_builder.hpp>
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_sensor.hpp>

#include <Eigen/Geometry>

#include "vf.hpp"
using namespace simple_sensor_simulator;

namespace
{
struct P2
{
  double x, y;
};
double cross(P2 o, P2 a, P2 b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
std::vector<P2> hull(std::vector<P2> v)
{
  std::sort(v.begin(), v.end(), [](P2 a, P2 b) { return a.x != b.x ? a.x < b.x : a.y < b.y; });
  std::vector<P2> h(2 * v.size() + 2);
  std::size_t k = 0;
  for (std::size_t i = 0; i < v.size(); ++i) {
    while (k >= 2 && cross(h[k - 2], h[k - 1], v[i]) <= 0) --k;
    h[k++] = v[i];
  }
  for (std::size_t i = v.size() - 1, t = k + 1; i-- > 0;) {
    while (k >= t && cross(h[k - 2], h[k - 1], v[i]) <= 0) --k;
    h[k++] = v[i];
  }
  h.resize(k - 1);
  return h;
}
// the largest gap along the normals of both polygons: > 0 apart, < 0 overlapping by that depth
double gap(const std::vector<P2> & a, const std::vector<P2> & b)
{
  double best = -1e300;
  for (int k = 0; k < 2; ++k) {
    const auto & p = k ? b : a;
    const auto & q = k ? a : b;
    for (std::size_t i = 0; i < p.size(); ++i) {
      const P2 u = p[i], v = p[(i + 1) % p.size()];
      const double l = std::hypot(v.x - u.x, v.y - u.y);
      if (l < 1e-9) continue;
      double m = 1e300;
      for (const auto & w : q) m = std::min(m, -cross(u, v, w) / l);
      best = std::max(best, m);
    }
  }
  return best;
}
// the same, also along the lines between near corners: a separation measure that is exact when apart
Eigen::Quaterniond orientation(vf::Src & s, bool flat)
{
  const double yaw = s.pick({0.0, 1.0, 2.0}) == 0.0 ? s.pick({0.0, M_PI / 2, M_PI, -M_PI / 2, M_PI / 4}) : s.real(-M_PI, M_PI);
  Eigen::Quaterniond q(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()));
  if (!flat) q = q * Eigen::AngleAxisd(s.real(-1, 1), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(s.real(-1, 1), Eigen::Vector3d::UnitX());
  return q;
}
struct Obj
{
  double d, w, h;
  Eigen::Vector3d p, centre{0, 0, 0};
  Eigen::Quaterniond q;
  std::vector<P2> footprint(double ox, double oy) const
  {
    std::vector<P2> v;
    for (int i = 0; i < 8; ++i) {
      const Eigen::Vector3d c(((i & 1) - 0.5) * d, ((i >> 1 & 1) - 0.5) * w, ((i >> 2 & 1) - 0.5) * h), r = p + q * (centre + c);
      v.push_back({r.x() - ox, r.y() - oy});
    }
    return hull(v);
  }
};
Obj object(vf::Src & s, double extent)
{
  Obj o;
  o.d = s.real(0.2, 6), o.w = s.real(0.2, 3), o.h = s.real(0.2, 3);
  if (s.chance(10)) o.d *= 4, o.w *= 4;
  o.p = Eigen::Vector3d(s.real(-extent, extent), s.real(-extent, extent), s.real(-2, 2));
  o.q = orientation(s, s.chance(70));
  return o;
}
const double clear = 2e-3;

struct Grid
{
  double res;
  std::size_t height, width;
  std::vector<P2> cell(std::size_t row, std::size_t col) const
  {
    const double x = (col - width / 2.0) * res, y = (row - height / 2.0) * res;
    return {{x, y}, {x + res, y}, {x + res, y + res}, {x, y + res}};
  }
};
// checks the grid; returns how many cells were decided as {occupied, invisible, free}
std::array<int, 3> judge(vf::Case & c, const Grid & g, const std::vector<std::vector<P2>> & footprints, const std::vector<std::int8_t> & data, int occupied, int invisible)
{
  std::array<int, 3> n{};
  c.require(data.size() == g.height * g.width, "the grid has ", data.size(), " cells instead of ", g.height * g.width);
  const double real_w = g.width * g.res / 2, real_h = g.height * g.res / 2;
  const std::vector<P2> area{{-real_w, -real_h}, {real_w, -real_h}, {real_w, real_h}, {-real_w, real_h}};
  std::vector<int> covers;  // of the origin: 1 yes, 0 no, -1 unclear
  for (const auto & f : footprints) {
    double in = 1e300;
    for (std::size_t i = 0; i < f.size(); ++i) {
      const P2 u = f[i], v = f[(i + 1) % f.size()];
      in = std::min(in, cross(u, v, P2{0, 0}) / std::max(1e-12, std::hypot(v.x - u.x, v.y - u.y)));
    }
    covers.push_back(in > clear ? 1 : in < -clear ? 0 : -1);
  }
  for (std::size_t row = 0; row < g.height; ++row)
    for (std::size_t col = 0; col < g.width; ++col) {
      const auto cell = g.cell(row, col);
      auto shade = cell;
      shade.push_back({0, 0});
      shade = hull(shade);
      bool occ = false, occ_open = false, inv = false, inv_open = false;
      for (std::size_t i = 0; i < footprints.size(); ++i) {
        const auto & f = footprints[i];
        const double a = gap(f, cell), b = gap(f, shade);
        if (a < -clear) occ = true;
        else if (a < clear) occ_open = true;
        if (covers[i] == 1 || (covers[i] == 0 && b < -clear)) inv = true;
        else if (covers[i] == -1 || b < clear) inv_open = true;
      }
      const int v = data[row * g.width + col];
      const auto where = [&] { return "row " + std::to_string(row) + " column " + std::to_string(col) + " has the value " + std::to_string(v); };
      if (occ) c.require(v == occupied, where(), " but a footprint covers part of it"), ++n[0];
      else if (!occ_open) {
        c.require(v != occupied || occupied == invisible || occupied == 0, where(), " but no footprint touches it");
        if (inv) c.require(v == invisible, where(), " but it lies behind a footprint"), ++n[1];
        else if (!inv_open) c.require(v == 0, where(), " but nothing hides it"), ++n[2];
      } else c.require(v == occupied || v == invisible || v == 0, where());
    }
  return n;
}
}  // namespace

VF_PROP("traversal", 20000, 400000)
{
  const auto coordinate = [&] { return s.chance(25) ? double(s.integer(-6, 6)) : s.real(-6, 6); };
  const double x0 = coordinate(), y0 = coordinate();
  const double x1 = s.chance(10) ? x0 : coordinate(), y1 = s.chance(10) ? y0 : coordinate();
  c.log << "(" << x0 << ", " << y0 << ") to (" << x1 << ", " << y1 << ")";
  if (x0 == x1 && y0 == y1) return;
  std::vector<std::pair<int, int>> cells;
  for (auto cell : GridTraversal(x0, y0, x1, y1)) {
    cells.push_back(cell);
    c.require(cells.size() < 100, "the traversal does not end");
  }
  c.require(!cells.empty() && cells.front() == std::make_pair(int(std::floor(x0)), int(std::floor(y0))), "the traversal does not begin in the cell of the start");
  for (std::size_t i = 1; i < cells.size(); ++i)
    c.require(std::abs(cells[i].first - cells[i - 1].first) + std::abs(cells[i].second - cells[i - 1].second) == 1, "step ", i, " is not to a neighbour");
  const double l = std::hypot(x1 - x0, y1 - y0), margin = 1e-6;
  // distance along the line spent within the cell grown or shrunk by m
  const auto inside = [&](int cx, int cy, double m) {
    double a = 0, b = 1;
    const auto clip = [&](double p, double d, double lo, double hi) {
      if (d == 0) {
        if (p < lo || p > hi) b = -1;
        return;
      }
      double u = (lo - p) / d, v = (hi - p) / d;
      if (u > v) std::swap(u, v);
      a = std::max(a, u), b = std::min(b, v);
    };
    clip(x0, x1 - x0, cx - m, cx + 1 + m), clip(y0, y1 - y0, cy - m, cy + 1 + m);
    return b >= a ? (b - a) * l : -1;
  };
  std::set<std::pair<int, int>> seen(cells.begin(), cells.end());
  std::size_t crossed = 0;
  for (int cx = -8; cx <= 8; ++cx)
    for (int cy = -8; cy <= 8; ++cy) {
      if (inside(cx, cy, -margin) > margin) {
        ++crossed;
        c.require(seen.count({cx, cy}), "the cell (", cx, ", ", cy, ") on the line is not visited");
      }
      if (inside(cx, cy, margin) < 0) c.require(!seen.count({cx, cy}), "the cell (", cx, ", ", cy, ") off the line is visited");
    }
  if (crossed >= 2) c.nontrivial();
}

VF_PROP("builder", 3000, 60000)
{
  Grid g{s.pick({0.5, 1.0, 0.25, 0.8}), std::size_t(s.integer(1, 20)), std::size_t(s.integer(1, 20))};
  const bool named = s.chance(30);
  const int occupied = named ? int(s.integer(1, 127)) : 100, invisible = named ? int(s.integer(1, 127)) : 50;
  std::optional<OccupancyGridBuilder> b;
  if (named) b.emplace(g.res, g.height, g.width, occupied, invisible);
  else b.emplace(g.res, g.height, g.width);
  c.log << "grid " << g.height << "x" << g.width << " of " << g.res << " m, costs " << occupied << " and " << invisible << "\n";
  const std::size_t rounds = 1 + s.index(2);
  for (std::size_t k = 0; k < rounds; ++k) {
    geometry_msgs::msg::Pose origin;
    origin.position.x = s.chance(50) ? 0 : s.real(-50, 50);
    origin.position.y = s.chance(50) ? 0 : s.real(-50, 50);
    origin.position.z = s.chance(50) ? 0 : s.real(-5, 5);
    b->reset(origin);
    c.log << "origin " << origin.position.x << ", " << origin.position.y << "\n";
    std::vector<std::vector<P2>> fs;
    const double extent = g.res * std::max(g.height, g.width) * 0.7 + 1;
    for (std::size_t n = s.length(4); n; --n) {
      auto o = object(s, extent);
      o.p += Eigen::Vector3d(origin.position.x, origin.position.y, 0);
      geometry_msgs::msg::Pose p;
      p.position.x = o.p.x(), p.position.y = o.p.y(), p.position.z = o.p.z();
      p.orientation.x = o.q.x(), p.orientation.y = o.q.y(), p.orientation.z = o.q.z(), p.orientation.w = o.q.w();
      c.log << "box " << o.d << " x " << o.w << " x " << o.h << " at " << o.p.transpose() << " turned " << o.q.coeffs().transpose() << "\n";
      b->add(primitives::Box(o.d, o.w, o.h, p));
      fs.push_back(o.footprint(origin.position.x, origin.position.y));
    }
    b->build();
    const auto n = judge(c, g, fs, b->get(), occupied, invisible);
    if (n[0]) c.label("occupied"), c.nontrivial();
    if (n[1]) c.label("invisible");
    if (n[2] && !fs.empty()) c.label("free");
    if (n[1] && !n[2]) c.label("all hidden");
  }
}

VF_PROP("builder-limit", 1, 3)
{
  OccupancyGridBuilder b(1, 3, 3);
  geometry_msgs::msg::Pose p;
  p.position.x = 50 + s.index(5), p.orientation.w = 1;
  const primitives::Box box(1, 1, 1, p);
  b.reset(geometry_msgs::msg::Pose());
  c.log << "as many objects as can be counted";
  for (int i = 0; i < 32767; ++i) b.add(box);
  VF_THROWS(std::runtime_error, b.add(box));
  b.reset(geometry_msgs::msg::Pose());
  b.add(box);
  c.nontrivial();
}

VF_PROP("sensor", 2500, 50000)
{
  using traffic_simulator_msgs::EntityStatus;
  simulation_api_schema::OccupancyGridSensorConfiguration conf;
  Grid g{s.pick({0.5, 1.0, 0.25}), std::size_t(s.integer(1, 20)), std::size_t(s.integer(1, 20))};
  const double period = s.pick({0.1, 0.5, 0.05}), range = s.real(1, 20);
  const bool by_range = s.boolean();
  conf.set_entity("ego"), conf.set_update_duration(period), conf.set_resolution(g.res), conf.set_height(g.height), conf.set_width(g.width), conf.set_range(range),
    conf.set_filter_by_range(by_range);
  shim::topics<nav_msgs::msg::OccupancyGrid>()["/grid"] = {};
  auto publisher = std::make_shared<rclcpp::Publisher<nav_msgs::msg::OccupancyGrid>>("/grid");
  auto & topic = shim::topics<nav_msgs::msg::OccupancyGrid>()["/grid"];
  double now = s.real(0, 10), last = now;
  OccupancyGridSensor<nav_msgs::msg::OccupancyGrid> sensor(now, conf, publisher);
  c.log << "grid " << g.height << "x" << g.width << " of " << g.res << " m every " << period << " s, range " << range << (by_range ? " filtered" : "") << "\n";
  std::size_t published = 0;
  for (std::size_t n = 1 + s.length(4); n; --n) {
    now += s.pick({period, period / 2, period * 1.5, period - 0.001, period + 0.01, period - 0.004});
    std::vector<EntityStatus> all;
    std::vector<std::string> seen;
    const double ex = s.real(-50, 50), ey = s.real(-50, 50), ez = s.real(-2, 2);
    const double extent = g.res * std::max(g.height, g.width) * 0.7 + 1;
    bool has_ego = !s.chance(3), is_ego = !s.chance(3), twice = false;
    const auto entity = [&](const std::string & name, const Obj & o) {
      EntityStatus e;
      e.set_name(name);
      auto & p = *e.mutable_pose();
      p.mutable_position()->set_x(o.p.x()), p.mutable_position()->set_y(o.p.y()), p.mutable_position()->set_z(o.p.z());
      auto & q = *p.mutable_orientation();
      q.set_x(o.q.x()), q.set_y(o.q.y()), q.set_z(o.q.z()), q.set_w(o.q.w());
      auto & b = *e.mutable_bounding_box();
      b.mutable_center()->set_x(o.centre.x()), b.mutable_center()->set_y(o.centre.y()), b.mutable_center()->set_z(o.centre.z());
      b.mutable_dimensions()->set_x(o.d), b.mutable_dimensions()->set_y(o.w), b.mutable_dimensions()->set_z(o.h);
      e.mutable_type()->set_type(s.pick({traffic_simulator_msgs::EntityType::VEHICLE, traffic_simulator_msgs::EntityType::PEDESTRIAN, traffic_simulator_msgs::EntityType::MISC_OBJECT}));
      return e;
    };
    std::vector<std::vector<P2>> fs;
    std::set<std::string> names;
    bool unclear = false;
    for (std::size_t m = s.length(4); m; --m) {
      Obj o = object(s, extent);
      o.p += Eigen::Vector3d(ex, ey, ez);
      if (s.boolean()) o.centre = Eigen::Vector3d(s.real(-2, 2), s.real(-1, 1), s.real(0, 1));
      const std::string name = "npc" + std::to_string(s.chance(97) ? m : 1);
      twice |= !names.insert(name).second;
      all.push_back(entity(name, o));
      c.log << name << " " << o.d << " x " << o.w << " x " << o.h << " around " << o.centre.transpose() << " at " << o.p.transpose() << " turned " << o.q.coeffs().transpose();
      if (s.chance(75)) {
        seen.push_back(name);
        c.log << " seen";
        const double distance = (o.p - Eigen::Vector3d(ex, ey, ez)).norm();
        if (std::abs(distance - range) < 1e-6) unclear = true;
        if (!by_range || distance <= range) fs.push_back(o.footprint(ex, ey));
      }
      c.log << "\n";
    }
    if (s.chance(10)) seen.push_back("gone");
    if (has_ego) {
      Obj o = object(s, 1);
      o.p = Eigen::Vector3d(ex, ey, ez);
      auto e = entity("ego", o);
      if (is_ego) e.mutable_type()->set_type(traffic_simulator_msgs::EntityType::EGO);
      all.insert(all.begin() + s.index(all.size() + 1), e);
      if (s.chance(20)) seen.push_back("ego");
    }
    s.shuffle(seen);
    const double late = now - last - period;
    if (std::abs(late + 0.002) < 1e-6) return;
    const bool due = late > -0.002;
    c.log << "at " << now << (due ? " due" : " not due") << ", ego " << (has_ego ? is_ego ? "" : "of another type " : "missing ") << "at " << ex << ", " << ey << "\n";
    const rclcpp::Time stamp(static_cast<std::int64_t>(now * 1e9));
    const auto before = topic.published;
    if (due && twice) {
      VF_THROWS(std::runtime_error, sensor.update(now, all, stamp, seen));
      return;
    }
    if (due && (!has_ego || (by_range && !is_ego))) {
      VF_THROWS(SimulationRuntimeError, sensor.update(now, all, stamp, seen));
      c.label("no ego");
      return;
    }
    sensor.update(now, all, stamp, seen);
    c.require(topic.published == before + due, "published ", topic.published - before, " grids where ", due, " is due");
    if (!due) continue;
    last = now, ++published;
    if (unclear) continue;
    const auto & m = *topic.history.back();
    c.require(m.header.frame_id == "map", "the frame is ", m.header.frame_id);
    c.require(rclcpp::Time(m.header.stamp) == stamp && rclcpp::Time(m.info.map_load_time) == stamp, "the stamp is not the current time");
    c.require(m.info.height == g.height && m.info.width == g.width && vf::close(m.info.resolution, g.res, 1e-6, 0), "the described grid is another");
    const auto & o = m.info.origin;
    c.require(vf::close(o.position.x, ex - g.width * g.res / 2, 0, 1e-9) && vf::close(o.position.y, ey - g.height * g.res / 2, 0, 1e-9) && vf::close(o.position.z, ez, 0, 1e-9),
      "the origin of the grid is (", o.position.x, ", ", o.position.y, ", ", o.position.z, ")");
    c.require(o.orientation.x == 0 && o.orientation.y == 0 && o.orientation.z == 0 && o.orientation.w == 1, "the grid is turned");
    const auto cells = judge(c, g, fs, m.data, 100, 50);
    if (cells[0]) c.nontrivial();
    if (cells[0]) c.label("occupied");
    if (by_range && fs.size() < seen.size()) c.label("out of range");
  }
  if (published) c.label("published");
}

VF_PROP("box", 8000, 100000)
{
  Obj o = object(s, 30);
  geometry_msgs::msg::Pose p;
  p.position.x = o.p.x(), p.position.y = o.p.y(), p.position.z = o.p.z();
  p.orientation.x = o.q.x(), p.orientation.y = o.q.y(), p.orientation.z = o.q.z(), p.orientation.w = o.q.w();
  c.log << "box " << o.d << " x " << o.w << " x " << o.h << " at " << o.p.transpose() << " turned " << o.q.coeffs().transpose();
  const primitives::Box box(o.d, o.w, o.h, p);
  const auto vs = box.getVertex();
  const auto ts = box.getTriangles();
  c.require(vs.size() == 8 && ts.size() == 12, "a box has ", vs.size(), " vertices and ", ts.size(), " triangles");
  const double eps = 1e-4;
  std::set<int> corners;
  std::vector<Eigen::Vector3d> local;
  for (const auto & v : vs) {
    const Eigen::Vector3d u = o.q.conjugate() * (Eigen::Vector3d(v.x, v.y, v.z) - o.p);
    local.push_back(u);
    c.require(std::abs(std::abs(u.x()) - o.d / 2) < eps && std::abs(std::abs(u.y()) - o.w / 2) < eps && std::abs(std::abs(u.z()) - o.h / 2) < eps, "a vertex at ", u.transpose(), " in the frame of the box");
    corners.insert((u.x() > 0) | (u.y() > 0) << 1 | (u.z() > 0) << 2);
  }
  c.require(corners.size() == 8, "the vertices are not the corners");
  std::map<std::pair<unsigned, unsigned>, int> edges;
  std::array<double, 6> areas{};
  for (const auto & t : ts) {
    c.require(t.v0 < 8 && t.v1 < 8 && t.v2 < 8, "a triangle of vertices ", t.v0, " ", t.v1, " ", t.v2);
    const Eigen::Vector3d a = local[t.v0], b = local[t.v1], d = local[t.v2];
    int face = -1;
    for (int k = 0; k < 3; ++k)
      if (std::signbit(a[k]) == std::signbit(b[k]) && std::signbit(a[k]) == std::signbit(d[k])) face = 2 * k + std::signbit(a[k]);
    c.require(face >= 0, "a triangle cuts through the box");
    areas[face] += (b - a).cross(d - a).norm() / 2;
    for (const auto & [u, v] : {std::make_pair(t.v0, t.v1), std::make_pair(t.v1, t.v2), std::make_pair(t.v2, t.v0)}) ++edges[{std::min(u, v), std::max(u, v)}];
  }
  const double full[] = {o.w * o.h, o.d * o.h, o.d * o.w};
  for (int f = 0; f < 6; ++f) c.require(vf::close(areas[f], full[f / 2], 1e-3, 1e-3), "the triangles cover ", areas[f], " of a side of ", full[f / 2]);
  for (const auto & e : edges) c.require(e.second == 2, "the surface is not closed");
  const auto h = box.get2DConvexHull();
  const auto f = o.footprint(0, 0);
  const auto depth = [](const std::vector<P2> & ring, P2 p) {
    double in = 1e300;
    for (std::size_t i = 0; i < ring.size(); ++i) {
      const P2 u = ring[i], v = ring[(i + 1) % ring.size()];
      const double l = std::hypot(v.x - u.x, v.y - u.y);
      if (l > 1e-9) in = std::min(in, cross(u, v, p) / l);
    }
    return in;
  };
  std::vector<P2> ring;
  for (const auto & v : h) ring.push_back({v.x, v.y});
  for (const auto & v : ring) c.require(depth(f, v) > -eps, "the footprint reaches outside the box at (", v.x, ", ", v.y, ")");
  for (const auto & v : f) {
    double d = 1e300;
    for (const auto & u : ring) d = std::min(d, std::hypot(u.x - v.x, u.y - v.y));
    const double in = depth(hull(ring), v);
    c.require(d < eps || in > -eps, "the footprint misses the corner (", v.x, ", ", v.y, ")");
  }
  using math::geometry::Axis;
  int k = 0;
  for (const auto axis : {Axis::X, Axis::Y, Axis::Z}) {
    double lo = 1e300, hi = -1e300;
    for (int i = 0; i < 8; ++i) {
      const Eigen::Vector3d r = o.p + o.q * Eigen::Vector3d(((i & 1) - 0.5) * o.d, ((i >> 1 & 1) - 0.5) * o.w, ((i >> 2 & 1) - 0.5) * o.h);
      lo = std::min(lo, r[k]), hi = std::max(hi, r[k]);
    }
    c.require(vf::close(box.getMax(axis).value(), hi, 0, eps) && vf::close(box.getMin(axis).value(), lo, 0, eps), "the box reaches along axis ", k, " from ", box.getMin(axis).value(), " to ", box.getMax(axis).value());
    ++k;
  }
  c.nontrivial();
}
