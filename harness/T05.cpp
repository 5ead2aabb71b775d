// Distances along and across lanes, between boxes, to lines, crosswalks and entities, on generated road networks.
#include "ways.hpp"

#include <geometry/bounding_box.hpp>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <traffic_simulator/helper/helper.hpp>
#include <traffic_simulator/lanelet_wrapper/traffic_lights.hpp>

using namespace ways;
using ways::text;
namespace lw = traffic_simulator::lanelet_wrapper;
namespace ts = traffic_simulator;
using Box = traffic_simulator_msgs::msg::BoundingBox;
using Spline = math::geometry::CatmullRomSpline;

namespace
{
Box anyBox(vf::Src & s, bool centred = false)
{
  Box b;
  b.dimensions.x = s.pick({4.0, 2.0, 0.8, 6.5}), b.dimensions.y = s.pick({1.8, 1.0, 0.6, 2.4}), b.dimensions.z = 1.5;
  if (!centred && s.chance(70)) b.center.x = s.uniform(-0.4, 0.4) * b.dimensions.x;
  if (!centred && s.chance(40)) b.center.y = s.uniform(-0.3, 0.3) * b.dimensions.y;
  b.center.z = 0.75;
  return b;
}
std::string text(const Box & b)
{
  std::ostringstream t;
  t << "box " << b.dimensions.x << " x " << b.dimensions.y << " around " << b.center.x << " " << b.center.y;
  return t.str();
}
/// the corners of a box on the ground, given counterclockwise
std::vector<V> corners(const Pose & p, const Box & b)
{
  const double yaw = yawOf(p.orientation);
  std::vector<V> r;
  for (auto [i, j] : {std::pair{1, 1}, {-1, 1}, {-1, -1}, {1, -1}}) {
    const double x = b.center.x + i * b.dimensions.x / 2, y = b.center.y + j * b.dimensions.y / 2;
    r.push_back({p.position.x + std::cos(yaw) * x - std::sin(yaw) * y, p.position.y + std::sin(yaw) * x + std::cos(yaw) * y, p.position.z});
  }
  return r;
}
double side(V a, V b, V p) { return (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x); }
bool crosses(V a, V b, V c, V d) { return side(a, b, c) * side(a, b, d) <= 0 && side(c, d, a) * side(c, d, b) <= 0; }
double apart2d(V a, V b, V c, V d)
{
  // where one merely touches the line through the other, an end tells the distance
  auto beyond = [](double x, double y) { return (x > 1e-9 && y < -1e-9) || (x < -1e-9 && y > 1e-9); };
  if (beyond(side(a, b, c), side(a, b, d)) && beyond(side(c, d, a), side(c, d, b))) return 0;
  return std::min({toSegment2d(a, c, d), toSegment2d(b, c, d), toSegment2d(c, a, b), toSegment2d(d, a, b)});
}
/// from a filled convex polygon to an open line
double toLine(const std::vector<V> & ring, const std::vector<V> & line)
{
  double d = 1e300;
  for (auto & p : line)
    if (insidePolygon(ring, p)) return 0;
  for (std::size_t i = 0, j = ring.size() - 1; i < ring.size(); j = i++)
    for (std::size_t k = 1; k < line.size(); ++k) d = std::min(d, apart2d(ring[i], ring[j], line[k - 1], line[k]));
  return d;
}
/// places where a curve crosses a line, found by sampling; sure: none of them is doubtful
struct Crossings
{
  std::vector<double> at;
  bool sure = true;
};
Crossings crossings(const Spline & curve, const std::vector<V> & line)
{
  Crossings r;
  const double length = curve.getLength();
  const int n = static_cast<int>(length / 0.1) + 2;
  V a = at(curve.getPoint(0.0));
  for (std::size_t k = 1; k < line.size(); ++k)
    if (toSegment2d(a, line[k - 1], line[k]) < 0.05) r.sure = false;
  for (int i = 1; i <= n; ++i) {
    const V b = at(curve.getPoint(std::min(length, length * i / n)));
    for (std::size_t k = 1; k < line.size(); ++k) {
      const V p = line[k - 1], q = line[k];
      if (toSegment2d(p, a, b) < 0.05 || toSegment2d(q, a, b) < 0.05) r.sure = false;  // close to an end of the line
      const double u = side(p, q, a), v = side(p, q, b), l = roads::norm2d(q - p);
      if (crosses(a, b, p, q)) {
        r.at.push_back(length * (i - 1 + u / (u - v)) / n);
        if (std::abs(u - v) < 0.2 * l * roads::norm2d(b - a)) r.sure = false;  // nearly along it
      } else if (std::abs(u) < 0.02 * l && toSegment2d(a, p, q) < 0.03) {
        bool near = false;
        for (double t : r.at) near |= std::abs(t - length * i / n) < 0.3;
        if (!near && std::abs(u - v) < 0.2 * l * roads::norm2d(b - a)) r.sure = false;
      }
    }
    a = b;
  }
  for (std::size_t k = 1; k < line.size(); ++k)
    if (toSegment2d(a, line[k - 1], line[k]) < 0.05) r.sure = false;
  std::sort(r.at.begin(), r.at.end());
  return r;
}
std::string show(const std::optional<double> & d) { return d ? std::to_string(*d) : "undefined"; }
/// a drive along the lanes from some lane
std::vector<Id> drive(vf::Src & s, const Net & n, std::size_t most)
{
  std::vector<Id> row{s.pick(n.ids)};
  while (row.size() < most && !n[row.back()].next.empty()) {
    const Id next = s.pick(n[row.back()].next);
    if (std::count(row.begin(), row.end(), next) || !n[next].vehicle()) break;
    row.push_back(next);
  }
  return row;
}
/// the curve a driver plans along these lanes: points every two metres on their centre lines
std::vector<geometry_msgs::msg::Point> plan(const Net & n, const std::vector<Id> & row, double from, double apart = 2)
{
  std::vector<geometry_msgs::msg::Point> r;
  double s = from;
  for (auto id : row) {
    const auto line = curve(n, id);
    for (; s < n[id].length; s += apart) r.push_back(line->getPoint(s));
    s -= n[id].length;
  }
  return r;
}
struct Reference
{
  bool possible = true;
  double along = 0, across = 0;
  int changes = 0;
  double slack = 1e-6;
  bool sure = true;  // no change of lanes where the lanes of a road swerve and differ in length
};
struct Bar
{
  bool sure = true;
  std::optional<double> s;
};
/// where a bar of ten metres to either side of a place crosses the centre line of a lane first
Bar bar(const Net & n, Id of, double where, Id on)
{
  Bar r;
  const auto pose = curve(n, of)->getPose(where);
  const double yaw = yawOf(pose.orientation);
  const V p = at(pose.position);
  const auto line = curve(n, on);
  const double length = line->getLength();
  const int parts = 40 + static_cast<int>(length * 4);
  auto ahead = [&](V q) { return std::cos(yaw) * (q.x - p.x) + std::sin(yaw) * (q.y - p.y); };
  auto aside = [&](V q) { return -std::sin(yaw) * (q.x - p.x) + std::cos(yaw) * (q.y - p.y); };
  V last = at(line->getPoint(0.0));
  if (std::abs(ahead(last)) < 0.02 && std::abs(aside(last)) < 10.1) r.sure = false;
  for (int i = 1; i <= parts; ++i) {
    const V q = at(line->getPoint(length * i / parts));
    const double u = ahead(last), v = ahead(q);
    if ((u < 0) != (v < 0)) {
      const double t = u / (u - v), o = aside(last) + (aside(q) - aside(last)) * t;
      if (std::abs(std::abs(o) - 10) < 0.05) r.sure = false;
      if (std::abs(o) < 10) {
        r.s = length * (i - 1 + t) / parts;
        break;
      }
    }
    last = q;
  }
  if (!r.s && std::abs(ahead(last)) < 0.02 && std::abs(aside(last)) < 10.1) r.sure = false;
  return r;
}
/// along the route that the graph gives
Reference reference(const Net & n, const LaneletPose & from, const LaneletPose & to, const RoutingConfiguration & how)
{
  Reference r;
  const auto route = lw::route::routeFromGraph(from.lanelet_id, to.lanelet_id, how);
  if (route.empty()) {
    r.possible = false;
    return r;
  }
  for (std::size_t i = 1; i < route.size(); ++i) {
    const Id a = route[i - 1], b = route[i];
    const char go = step(n, a, b, how.routing_graph_type);
    if (go == 'n') {
      r.along += n[a].length;
      continue;
    }
    r.across += (go == 'l' ? 1 : -1) * n.nodes[0].width, ++r.changes;
    if (n.roads[n[a].road].bump != 0) r.sure = false;
    // lanes of one road start side by side
    const auto x = bar(n, b, 0, a), y = bar(n, a, 0, b);
    double d = 0;
    if (x.s) d = *x.s;
    else if (x.sure && y.s) d = -*y.s;
    r.along += d;
    r.slack += 0.01;
    // at the very start rounding decides which of the two is compared
    if (!x.sure) r.slack += 0.03 + std::abs(d) + (y.s ? *y.s : 0);
    else if (!x.s && !y.sure) r.slack += 0.1;
  }
  r.along += to.s - from.s;
  r.across += to.offset - from.offset;
  return r;
}
}  // namespace

VF_PROP("lanes", 500, 8000)
{
  auto net = roads::generate(s);
  net->activate();
  c.log << net->text << "\n";
  const auto & n = *net;
  for (int i = 0; i < 4; ++i) {
    RoutingConfiguration how;
    how.allow_lane_change = s.boolean();
    if (s.chance(25)) how.routing_graph_type = Type::VEHICLE;
    const auto from = somewhere(s, n, n.ids, 0.3), near = somewhere(s, n, n.ids, 0.3);
    auto to = near;
    if (s.chance(25)) to.lanelet_id = from.lanelet_id, to.s = n[from.lanelet_id].length * s.uniform(0, 1);
    c.log << lanes::text(from) << " to " << lanes::text(to) << (how.allow_lane_change ? " with" : " without") << " lane changes as " << static_cast<int>(how.routing_graph_type) << "\n";
    const CanonicalizedLaneletPose a(from), b(to);
    const auto f = static_cast<LaneletPose>(a), t = static_cast<LaneletPose>(b);
    if (f.lanelet_id != from.lanelet_id || t.lanelet_id != to.lanelet_id) continue;
    const auto ahead = reference(n, f, t, how), back = reference(n, t, f, how);
    const double slack = std::max(ahead.slack, back.slack);
    const auto across = ts::lateralDistance(a, b, how);
    c.require((!ahead.sure && !across) || across.has_value() == ahead.possible, "the lateral distance is ", show(across), ahead.possible ? " although there is a route" : " although there is no route");
    if (across) {
      const double tolerance = 1e-6 + 0.2 * ahead.changes;
      c.require(!ahead.sure || std::abs(*across - ahead.across) < tolerance, "the lateral distance is ", *across, ", not ", ahead.across);
      c.require(how.allow_lane_change || ahead.changes == 0, "the route changes lanes");
      if (ahead.changes) c.label("across lanes");
      const double within = s.uniform(0, 1.2);
      const bool inside = std::abs(f.offset) <= within && std::abs(t.offset) <= within;
      const auto limited = ts::lateralDistance(a, b, within, how);
      c.require(limited.has_value() == inside, "within ", within, " the lateral distance is ", show(limited));
      c.require(!limited || *limited == *across, "within ", within, " the lateral distance is ", show(limited), ", else ", show(across));
    } else {
      c.require(!ts::lateralDistance(a, b, 10, how), "a lateral distance exists only within limits");
    }
    const auto one = lw::distance::longitudinalDistance(f, t, how);
    if (!ahead.possible) c.require(!one, "without a route the way on is ", show(one));
    else if (ahead.sure && std::abs(ahead.along) > slack) {
      c.require(one.has_value() == (ahead.along >= 0), "the way on is ", show(one), ", but it is ", ahead.along);
      c.require(!one || std::abs(*one - ahead.along) < slack, "the way on is ", show(one), ", not ", ahead.along);
    }
    c.require(!one || *one >= 0, "the way on is ", show(one));
    const auto both = ts::longitudinalDistance(a, b, false, false, how);
    const bool may_on = ahead.possible && ahead.along > slack, may_back = back.possible && back.along > slack;
    const bool doubt = !ahead.sure || !back.sure || (ahead.possible && std::abs(ahead.along) <= slack) || (back.possible && std::abs(back.along) <= slack) || (may_on && may_back && std::abs(ahead.along - back.along) < 2 * slack);
    if (!doubt) {
      c.require(both.has_value() == (may_on || may_back), "the distance along the lanes is ", show(both));
      if (both) {
        const double want = !may_back || (may_on && ahead.along < back.along) ? ahead.along : -back.along;
        c.require(std::abs(*both - want) < slack, "the distance along the lanes is ", *both, ", not ", want);
        c.nontrivial();
        c.label(want < 0 ? "behind" : "ahead");
        if (may_on && may_back) c.label("both ways");
        if (ahead.changes && want > 0) c.label("ahead across lanes");
      } else {
        c.label("no way");
      }
    }
    const auto reverse = ts::longitudinalDistance(b, a, false, false, how);
    c.require(reverse.has_value() == both.has_value() && (!both || std::abs(std::abs(*reverse) - std::abs(*both)) < 1e-9), "seen from the other side the distance is ", show(reverse), " instead of ", show(both));
    // relative lanelet pose
    const auto relative = ts::pose::relativeLaneletPose(a, b, how);
    c.require(both ? relative.s == *both : std::isnan(relative.s), "the relative s is ", relative.s, ", the distance ", show(both));
    c.require(across ? relative.offset == *across : std::isnan(relative.offset), "the relative offset is ", relative.offset, ", the distance ", show(across));
    // entities beside the lane count for the lanes next to them as well
    {
      const auto wide = ts::longitudinalDistance(a, b, true, false, how);
      auto near = [&](const CanonicalizedLaneletPose & p) {
        auto v = lw::pose::toLaneletPoses(ts::pose::toMapPose(p), p.getLaneletId(), 5.0, false, how.routing_graph_type);
        v.push_back(static_cast<LaneletPose>(p));
        return v;
      };
      std::optional<double> least;
      bool sure = true;
      const auto from_all = near(a), to_all = near(b);
      for (auto & x : from_all)
        for (auto & y : to_all) {
          if (x.s < 0 || y.s < 0 || x.s > n[x.lanelet_id].length || y.s > n[y.lanelet_id].length) sure = false;
          if (!sure) continue;
          const auto d = ts::longitudinalDistance(CanonicalizedLaneletPose(x), CanonicalizedLaneletPose(y), false, false, how);
          if (d && (!least || std::abs(*d) < std::abs(*least))) least = d;
        }
      if (sure) {
        c.require(wide.has_value() == least.has_value() && (!wide || std::abs(std::abs(*wide) - std::abs(*least)) < 1e-6), "with the lanes beside, the distance is ", show(wide), ", not ", show(least));
        if (wide && !both) c.label("only beside");
      }
      c.require(!both || (wide && std::abs(*wide) <= std::abs(*both) + 1e-9), "with the lanes beside, the distance ", show(both), " becomes ", show(wide));
    }
    // being in a lane
    for (const double tolerance : {0.0, s.uniform(0, 30)}) {
      const Id lane = s.chance(30) ? f.lanelet_id : s.pick(n.ids);
      const bool in = ts::pose::isInLanelet(a, lane, tolerance);
      RoutingConfiguration plain;
      const CanonicalizedLaneletPose first(pose(lane, 0)), last(pose(lane, n[lane].length));
      if (f.lanelet_id == lane) {
        c.require(in, "it is not in its own lane");
        continue;
      }
      bool want = false, sure = last.getLaneletId() == lane;
      for (auto * end : {&first, &last}) {
        const auto d = ts::longitudinalDistance(*end, a, false, false, plain);
        if (d && std::abs(std::abs(*d) - tolerance) < 1e-9) sure = false;
        want |= d && std::abs(*d) <= tolerance;
      }
      if (sure) c.require(in == want, "whether it is in ", lane, " up to ", tolerance, " m is ", in ? "affirmed" : "denied");
      if (sure && in) c.label("in a lane nearby");
    }
  }
}

/// two lanes side by side whose centre lines begin and end at different places
VF_PROP("starts", 400, 6000)
{
  Net n;
  n.map = std::make_shared<lanelet::LaneletMap>();
  Id counter = 100;
  n.fresh = [&] { return ++counter; };
  const double length = s.uniform(20, 120), width = s.pick({3.0, 4.0, 2.5}), yaw = s.real(-3, 3);
  const V origin{s.pick({0.0, 300.0}), s.pick({0.0, -80.0}), s.pick({0.0, 12.0})};
  auto place = [&](double x, double y) { return V{origin.x + std::cos(yaw) * x - std::sin(yaw) * y, origin.y + std::sin(yaw) * x + std::cos(yaw) * y, origin.z}; };
  auto line = [&](double x0, double x1, double y) {
    std::vector<lanelet::Point3d> p;
    const int parts = 1 + static_cast<int>(s.index(5));
    for (int i = 0; i <= parts; ++i) {
      const V v = place(x0 + (x1 - x0) * i / parts, y);
      p.emplace_back(n.fresh(), v.x, v.y, v.z);
    }
    return lanelet::LineString3d(n.fresh(), p);
  };
  std::vector<lanelet::LineString3d> bounds{line(0, length, width), line(0, length, 0), line(0, length, -width)};
  for (auto & b : bounds) b.setAttribute("type", "line_thin"), b.setAttribute("subtype", "dashed");
  double begin[2], end[2];
  Id ids[2];
  for (int i = 0; i < 2; ++i) {
    begin[i] = s.chance(25) ? 0 : length * s.uniform(0, 0.75), end[i] = begin[i] + std::max(5.0, (length - begin[i]) * (s.chance(30) ? 1 : s.uniform(0.1, 1)));
    ids[i] = n.fresh();
    lanelet::Lanelet ll(ids[i], bounds[i], bounds[i + 1]);
    ll.setAttribute("type", "lanelet"), ll.setAttribute("subtype", "road"), ll.setAttribute("location", "urban"), ll.setAttribute("one_way", "yes");
    ll.setCenterline(line(begin[i], end[i], (i ? -0.5 : 0.5) * width));
    n.map->add(ll);
    c.log << "lane " << ids[i] << " from " << begin[i] << " to " << end[i] << "\n";
  }
  static int count = 0;
  minilanelet::builder() = [&](auto &&...) { return n.map; };
  lw::LaneletWrapper::activate("pair" + std::to_string(++count));
  auto x = [&](int lane, double at_s) { return begin[lane] + at_s; };
  RoutingConfiguration how;
  how.allow_lane_change = true;
  for (int k = 0; k < 6; ++k) {
    const int i = s.index(2), j = 1 - i;
    const auto from = pose(ids[i], s.uniform(0.01, 0.99) * (end[i] - begin[i]), s.uniform(-1, 1)), to = pose(ids[j], s.uniform(0.01, 0.99) * (end[j] - begin[j]), s.uniform(-1, 1));
    const double want = x(j, to.s) - x(i, from.s);
    // there is a place to compare both at: the start of one beside the other, or their middles
    const double half = std::min(end[i] - begin[i], end[j] - begin[j]) / 2;
    auto on = [&](int lane, double v) { return v > begin[lane] + 0.01 && v < end[lane] - 0.01 ? 1 : v > begin[lane] - 0.01 && v < end[lane] + 0.01 ? 2 : 0; };
    const int beside[] = {on(i, begin[j]), on(j, begin[i]), on(i, begin[j] + half), on(j, begin[i] + half)};
    bool must = false, may = false;
    for (int b : beside) must |= b == 1, may |= b > 0;
    c.log << lanes::text(from) << " to " << lanes::text(to) << "\n";
    const auto d = lw::distance::longitudinalDistance(from, to, how);
    if (std::abs(want) > 1e-4) {
      c.require(!must || d.has_value() == (want >= 0), "the distance is ", show(d), ", not ", want);
      c.require(may || !d, "the lanes are nowhere beside each other, but the distance is ", show(d));
      c.require(!d || std::abs(*d - want) < 1e-4, "the distance is ", show(d), ", not ", want);
      if (d) c.nontrivial(), c.label("across");
      if (d && !beside[0] && beside[1]) c.label("the other start");
      if (d && !beside[0] && !beside[1]) c.label("middles");
      if (!may) c.label("nowhere beside");
    }
    const bool start_must = beside[0] == 1 || beside[1] == 1, start_may = beside[0] || beside[1];
    const auto across = ts::lateralDistance(CanonicalizedLaneletPose(from), CanonicalizedLaneletPose(to), how);
    const double aside = to.offset - from.offset + (j < i ? width : -width);
    c.require(!start_must || across.has_value(), "there is no lateral distance");
    c.require(start_may || !across, "the lateral distance is ", show(across), " although neither start is beside the other lane");
    c.require(!across || std::abs(*across - aside) < 1e-4, "the lateral distance is ", show(across), ", not ", aside);
  }
}

VF_PROP("boxes", 500, 8000)
{
  auto net = roads::generate(s);
  net->activate();
  c.log << net->text << "\n";
  const auto & n = *net;
  for (int i = 0; i < 4; ++i) {
    RoutingConfiguration how;
    how.allow_lane_change = s.boolean();
    auto from = somewhere(s, n, n.ids, 0.4), to = somewhere(s, n, n.ids, 0.4);
    if (s.chance(40)) to.lanelet_id = from.lanelet_id, to.s = n[from.lanelet_id].length * s.uniform(0, 1);
    if (s.chance(40)) from.rpy.z = s.uniform(-0.5, 0.5);
    const Box fb = anyBox(s), tb = anyBox(s);
    c.log << lanes::text(from) << " " << text(fb) << " to " << lanes::text(to) << " " << text(tb) << "\n";
    const CanonicalizedLaneletPose a(from), b(to);
    const double front = fb.center.x + fb.dimensions.x / 2, rear = fb.dimensions.x / 2 - fb.center.x, left = fb.center.y + fb.dimensions.y / 2, right = fb.dimensions.y / 2 - fb.center.y;
    const double other_front = tb.center.x + tb.dimensions.x / 2, other_rear = tb.dimensions.x / 2 - tb.center.x, other_left = tb.center.y + tb.dimensions.y / 2, other_right = tb.dimensions.y / 2 - tb.center.y;
    auto gap = [](const std::optional<double> & d, double to_positive, double to_negative) -> std::optional<double> {
      if (!d) return {};
      return *d > 0 ? *d - to_positive : *d < 0 ? *d + to_negative : 0;
    };
    auto same = [](const std::optional<double> & x, const std::optional<double> & y) { return x.has_value() == y.has_value() && (!x || std::abs(*x - *y) < 1e-9); };
    const auto across = ts::lateralDistance(a, b, how), want_across = gap(across, left + other_right, right + other_left);
    const auto got_across = ts::boundingBoxLaneLateralDistance(a, fb, b, tb, how);
    c.require(same(got_across, want_across), "the lateral distance ", show(across), " leaves ", show(got_across), ", not ", show(want_across), " between the boxes");
    const bool beside = s.boolean();
    const auto along = ts::longitudinalDistance(a, b, beside, false, how), want_along = gap(along, front + other_rear, rear + other_front);
    const auto got_along = ts::boundingBoxLaneLongitudinalDistance(a, fb, b, tb, beside, false, how);
    c.require(same(got_along, want_along), "the distance ", show(along), " along the lanes leaves ", show(got_along), ", not ", show(want_along), " between the boxes");
    c.require(same(ts::boundingBoxLaneLongitudinalDistance(along, fb, tb), want_along), "the distance ", show(along), " given leaves another one between the boxes");
    if (!beside) {
      const auto relative = ts::pose::boundingBoxRelativeLaneletPose(a, fb, b, tb, how);
      c.require(want_along ? std::abs(relative.s - *want_along) < 1e-9 : std::isnan(relative.s), "the relative s of the boxes is ", relative.s);
      c.require(want_across ? std::abs(relative.offset - *want_across) < 1e-9 : std::isnan(relative.offset), "the relative offset of the boxes is ", relative.offset);
    }
    if (along && across) c.nontrivial();
    if (want_along && *want_along < 0) c.label("behind");
    // straight between the boxes, and to the bounds of lanes
    const auto at_a = ts::pose::toMapPose(a), at_b = ts::pose::toMapPose(b);
    const auto ring = corners(at_a, fb), other = corners(at_b, tb);
    const bool flat = std::abs(at_a.orientation.x) + std::abs(at_a.orientation.y) + std::abs(at_b.orientation.x) + std::abs(at_b.orientation.y) < 1e-9;
    if (!flat) continue;
    if (std::abs(at_a.position.z - at_b.position.z) < 1e-9) {
      const auto d = ts::boundingBoxDistance(at_a, fb, at_b, tb);
      double want = toLine(ring, [&] { auto v = other; v.push_back(other[0]); return v; }());
      if (insidePolygon(other, ring[0])) want = 0;
      c.require(want > 0.01 || !d || *d < 0.02, "the boxes overlap but are ", show(d), " apart");
      c.require(want < 0.01 || (d && std::abs(*d - want) < 1e-6), "the boxes are ", show(d), " apart, not ", want);
      if (want < 0.01) c.label("overlap");
    }
    std::vector<Id> some;
    for (std::size_t k = 1 + s.index(3); k-- > 0;) some.push_back(s.chance(50) ? a.getLaneletId() : s.pick(n.ids));
    double least_left = 1e300, least_right = 1e300;
    for (auto id : some) {
      const double l = toLine(ring, n[id].left_bound), r = toLine(ring, n[id].right_bound);
      least_left = std::min(least_left, l), least_right = std::min(least_right, r);
      const double tl = ts::distanceToLeftLaneBound(at_a, fb, id), tr = ts::distanceToRightLaneBound(at_a, fb, id), t = ts::distanceToLaneBound(at_a, fb, id);
      c.require(std::abs(tl - l) < 1e-6 && std::abs(tr - r) < 1e-6 && std::abs(t - std::min(l, r)) < 1e-6, "the bounds of ", id, " are said to be ", tl, " and ", tr, " away, the nearer ", t, "; they are ", l, " and ", r, " away");
      if (l == 0 || r == 0) c.label("across a bound");
    }
    c.require(std::abs(ts::distanceToLeftLaneBound(at_a, fb, some) - least_left) < 1e-6 && std::abs(ts::distanceToRightLaneBound(at_a, fb, some) - least_right) < 1e-6 && std::abs(ts::distanceToLaneBound(at_a, fb, some) - std::min(least_left, least_right)) < 1e-6, "the nearest bound of ", text(some), " is wrong");
    if (i == 0) {
      VF_THROWS(common::SemanticError, ts::distanceToLeftLaneBound(at_a, fb, Ids{}));
      VF_THROWS(common::SemanticError, ts::distanceToRightLaneBound(at_a, fb, Ids{}));
      VF_THROWS(common::SemanticError, ts::distanceToLaneBound(at_a, fb, Ids{}));
    }
  }
}

VF_PROP("lines", 500, 8000)
{
  auto net = roads::generate(s);
  auto & n = *net;
  const auto row = drive(s, n, 4);
  // centre lines are known only after loading; they lie halfway between the bounds
  std::vector<std::pair<V, V>> steps;
  for (auto id : row) {
    const auto &l = n[id].left_bound, &r = n[id].right_bound;
    for (std::size_t i = 1; i < std::min(l.size(), r.size()); ++i) steps.push_back({(l[i - 1] + r[i - 1]) * 0.5, (l[i] + r[i]) * 0.5});
  }
  struct Line
  {
    Id id;
    std::vector<V> points;
    std::vector<Id> on;
    Id light = 0;
  };
  std::vector<Line> stops, lights;
  auto make = [&](const char * type) {
    const auto [p, q] = s.pick(steps);
    const double t = s.uniform(0, 1), half = s.uniform(0.5, 2.5), turn = M_PI / 2 + s.uniform(-0.7, 0.7), aside = s.chance(80) ? s.uniform(-0.4, 0.4) : s.uniform(-6, 6);
    const V d = q - p, at = p + d * t;
    const double yaw = std::atan2(d.y, d.x);
    const V u{std::cos(yaw + turn), std::sin(yaw + turn), 0}, w{-std::sin(yaw), std::cos(yaw), 0};
    Line line;
    line.points = {at + w * aside + u * -half, at + w * aside + u * half};
    if (s.chance(30)) line.points.insert(line.points.begin() + 1, at + w * aside + u * s.uniform(-0.4, 0.4));  // straight: a bent line is closed
    std::vector<lanelet::Point3d> ps;
    for (auto & v : line.points) ps.emplace_back(n.fresh(), v.x, v.y, v.z);
    lanelet::LineString3d ls(n.fresh(), ps);
    ls.setAttribute("type", type);
    line.id = ls.id();
    n.map->add(ls);
    for (std::size_t k = 1 + s.index(2); k-- > 0;) {
      const Id id = s.chance(75) ? s.pick(row) : s.pick(n.ids);
      if (!std::count(line.on.begin(), line.on.end(), id)) line.on.push_back(id);
    }
    return std::pair{line, ls};
  };
  for (std::size_t i = s.length(4); i-- > 0;) {
    auto [line, ls] = make("stop_line");
    auto e = std::make_shared<lanelet::TrafficSign>();
    e->id_ = n.fresh();
    lanelet::LineString3d board(n.fresh(), {lanelet::Point3d(n.fresh(), 0, 0, 3), lanelet::Point3d(n.fresh(), 1, 0, 3)});
    board.setAttribute("type", "traffic_sign"), board.setAttribute("subtype", "stop_sign");
    n.map->add(board);
    e->lines["refers"].push_back(board), e->lines["ref_line"].push_back(ls);
    for (auto id : line.on) n.map->laneletLayer.get(id).addRegulatoryElement(e);
    n.map->add(e);
    stops.push_back(line);
  }
  std::vector<Id> light_ids;
  for (std::size_t i = s.length(4); i-- > 0;) {
    auto [line, ls] = make("stop_line");
    auto e = std::make_shared<lanelet::autoware::AutowareTrafficLight>();
    e->id_ = n.fresh();
    // several elements may share one light
    line.light = !light_ids.empty() && s.chance(40) ? s.pick(light_ids) : n.fresh();
    if (!std::count(light_ids.begin(), light_ids.end(), line.light)) light_ids.push_back(line.light);
    lanelet::LineString3d bulbs(n.fresh(), {lanelet::Point3d(n.fresh(), 0, 0, 3), lanelet::Point3d(n.fresh(), 1, 0, 3), lanelet::Point3d(n.fresh(), 2, 0, 3)});
    bulbs.setAttribute("type", "light_bulbs"), bulbs.setAttribute("traffic_light_id", std::to_string(line.light));
    n.map->add(bulbs);
    e->lines["light_bulbs"].push_back(bulbs);
    if (s.chance(85)) e->lines["ref_line"].push_back(ls);
    else line.points.clear();
    for (auto id : line.on) n.map->laneletLayer.get(id).addRegulatoryElement(e);
    n.map->add(e);
    lights.push_back(line);
  }
  if (n.crosswalks.empty() && s.boolean()) {
    const auto [p, q] = s.pick(steps);
    const V d = q - p;
    roads::addCrosswalk(n, p + d * s.uniform(0.1, 0.9), std::atan2(d.y, d.x) + s.uniform(-0.3, 0.3), n.nodes[0].width * s.uniform(0.4, 2), s.uniform(1, 4));
  }
  net->activate();
  c.log << n.text << "; drive " << text(row) << "\n";
  for (auto & l : stops) c.log << "stop line " << l.id << " on " << text(l.on) << "\n";
  for (auto & l : lights) c.log << "light " << l.light << " with " << (l.points.empty() ? 0 : l.id) << " on " << text(l.on) << "\n";
  const auto points = plan(n, row, n[row[0]].length * s.uniform(0, 0.5), s.pick({2.0, 1.0, 4.0}));
  if (points.size() < 3) return;
  const Spline spline(points);
  std::map<Id, Crossings> found;
  auto judge = [&](const std::optional<double> & got, const std::vector<Crossings> & all, auto &&... what) {
    double first = 1e300;
    for (auto & x : all) {
      if (!x.sure) return false;
      if (!x.at.empty()) first = std::min(first, x.at.front());
    }
    c.require(got.has_value() == (first < 1e300), "the distance to ", what..., " is ", show(got), first < 1e300 ? ", not " : ", but the way does not cross it", first < 1e300 ? std::to_string(first) : "");
    c.require(!got || std::abs(*got - first) < 0.05, "the distance to ", what..., " is ", show(got), ", not ", first);
    if (got) c.nontrivial();
    return got.has_value();
  };
  std::vector<Crossings> on_way;
  for (auto & l : stops) {
    const auto x = crossings(spline, l.points);
    if (judge(lw::distance::distanceToStopLine(points, l.id), {x}, "stop line ", l.id)) c.label("stop line");
    for (auto id : l.on)
      if (std::count(row.begin(), row.end(), id)) {
        on_way.push_back(x);
        break;
      }
  }
  if (judge(lw::distance::distanceToStopLine(row, points), on_way, "the next stop line") && on_way.size() > 1) c.label("several stop lines");
  judge(lw::distance::distanceToStopLine(row, spline), on_way, "the next stop line along the curve");
  on_way.clear();
  for (auto light : light_ids) {
    std::vector<Crossings> of;
    bool here = false;
    for (auto & l : lights) {
      if (l.light != light) continue;
      if (!l.points.empty()) of.push_back(crossings(spline, l.points));
      for (auto id : l.on) here |= std::count(row.begin(), row.end(), id) > 0;
    }
    if (here) on_way.insert(on_way.end(), of.begin(), of.end());
    if (judge(lw::distance::distanceToTrafficLightStopLine(points, light), of, "the stop line of light ", light)) c.label(of.size() > 1 ? "several lines of a light" : "light");
    judge(lw::distance::distanceToTrafficLightStopLine(spline, light), of, "the stop line of light ", light, " along the curve");
  }
  judge(lw::distance::distanceToTrafficLightStopLine(row, points), on_way, "the next light");
  judge(lw::distance::distanceToTrafficLightStopLine(row, spline), on_way, "the next light along the curve");
  for (auto id : n.crosswalks) {
    auto ring = polygon(n, id);
    ring.push_back(ring[0]);
    const auto x = crossings(spline, ring);
    if (judge(lw::distance::distanceToCrosswalk(points, id), {x}, "crosswalk ", id)) c.label("crosswalk");
    judge(lw::distance::distanceToCrosswalk(spline, id), {x}, "crosswalk ", id, " along the curve");
  }
  // nothing ahead
  const std::vector<geometry_msgs::msg::Point> none;
  c.require(!lw::distance::distanceToStopLine(row, none) && !lw::distance::distanceToTrafficLightStopLine(row, none), "there is a distance without a way");
  for (auto & l : stops) c.require(!lw::distance::distanceToStopLine(none, l.id), "there is a distance without a way");
  for (auto light : light_ids) c.require(!lw::distance::distanceToTrafficLightStopLine(none, light), "there is a distance without a way");
  for (auto id : n.crosswalks) c.require(!lw::distance::distanceToCrosswalk(none, id), "there is a distance without a way");
}

VF_PROP("yield", 500, 8000)
{
  roads::Options o;
  o.crosswalks = false;
  auto net = roads::generate(s, o);
  auto & n = *net;
  const auto row = drive(s, n, 5);
  std::map<Id, std::set<Id>> right;
  for (std::size_t i = 1 + s.index(3); i-- > 0;) {
    auto e = std::make_shared<lanelet::RightOfWay>();
    e->id_ = n.fresh();
    const Id wait = s.chance(85) ? s.pick(row) : s.pick(n.ids);
    std::vector<Id> first;
    for (std::size_t j = 1 + s.index(2); j-- > 0;) first.push_back(s.pick(n.ids));
    for (auto id : first) e->lanelets["right_of_way"].push_back(n.map->laneletLayer.get(id));
    e->lanelets["yield"].push_back(n.map->laneletLayer.get(wait));
    n.map->laneletLayer.get(wait).addRegulatoryElement(e);
    for (auto id : first)
      if (id != wait) right[wait].insert(id);
    n.map->add(e);
    c.log << text(first) << " before " << wait << "\n";
  }
  net->activate();
  c.log << n.text << "; drive " << text(row) << "\n";
  std::vector<CanonicalizedLaneletPose> others;
  std::set<Id> taken;
  for (std::size_t i = s.length(4); i-- > 0;) {
    std::vector<Id> among = n.ids;
    if (!right.empty() && s.chance(60)) {
      std::vector<Id> waiting;
      for (auto & [w, f] : right) waiting.push_back(w);
      const Id r = s.pick(waiting);
      if (!right[r].empty()) among.assign(right[r].begin(), right[r].end());
    }
    auto p = somewhere(s, n, among, 0.1);
    p.s = std::clamp(p.s, 0.01, n[p.lanelet_id].length - 0.01);
    others.emplace_back(p), taken.insert(p.lanelet_id);
    c.log << "another at " << lanes::text(p) << "\n";
  }
  const std::size_t begin = s.index(row.size());
  auto here = pose(row[begin], n[row[begin]].length * s.uniform(0.01, 0.99));
  Ids ahead(row.begin() + (s.chance(70) ? begin : s.index(row.size())), row.end());
  c.log << "at " << lanes::text(here) << ", following lanes " << text(ahead) << "\n";
  const auto got = ts::distanceToYieldStop(CanonicalizedLaneletPose(here), ahead, others);
  std::optional<double> want;
  for (auto id : ahead) {
    bool must = false;
    for (auto f : right[id]) must |= taken.count(f) > 0;
    if (!must) continue;
    const auto start = pose(id, 0);
    const auto on = reference(n, here, start, RoutingConfiguration()), back = reference(n, start, here, RoutingConfiguration());
    if (on.possible && on.along >= 0) want = on.along;
    else if (back.possible && back.along >= 0) want = -back.along;
    if (want) break;
  }
  c.require(got.has_value() == want.has_value(), "the distance to the place to wait is ", show(got), ", not ", show(want));
  c.require(!got || std::abs(*got - *want) < 1e-6, "the distance to the place to wait is ", show(got), ", not ", show(want));
  if (got) c.nontrivial(), c.label(*got < 0 ? "passed" : "ahead");
}

VF_PROP("front", 500, 8000)
{
  roads::Options o;
  o.crosswalks = false, o.rings = false, o.detours = false, o.shoulders = false;
  const bool straight = s.chance(40);
  if (straight) o.max_curvature = 0, o.forks = false, o.slopes = false;
  auto net = roads::generate(s, o);
  net->activate();
  const auto & n = *net;
  const auto row = drive(s, n, 4);
  c.log << n.text << "; drive " << text(row) << "\n";
  auto from = pose(row[0], n[row[0]].length * s.uniform(0, 0.9));
  const Box fb = anyBox(s, true), tb = anyBox(s);
  const auto points = plan(n, row, from.s, 1);
  if (points.size() < 6) return;
  const Spline spline(points);
  const double width = n.nodes[0].width;
  // someone on the way, or in a lane beside it
  const std::size_t k = s.index(row.size());
  Id lane = row[k];
  double beside = 0;
  if (s.chance(30) && (n[lane].left || n[lane].right)) {
    const bool left = n[lane].left && (!n[lane].right || s.boolean());
    beside = left ? width : -width, lane = left ? n[lane].left : n[lane].right;
  }
  const auto to = pose(lane, n[lane].length * s.uniform(0.02, 0.98), s.chance(40) ? s.uniform(-1.5, 1.5) : 0);
  const double limit = s.chance(50) ? -1.0 : s.uniform(0.2, 2.5), threshold = limit < 0 ? fb.dimensions.y / 2 : limit;
  c.log << lanes::text(from) << " " << text(fb) << " to " << lanes::text(to) << " " << text(tb) << " threshold " << limit << "\n";
  const CanonicalizedLaneletPose a(from), b(to);
  if (b.getLaneletId() != lane || a.getLaneletId() != row[0]) return;
  const auto got = ts::splineDistanceToBoundingBox(spline, a, fb, b, tb, limit);
  // the corners against the way
  const auto ring = corners(ts::pose::toMapPose(b), tb);
  double nearest = 1e300;
  bool crossed = false;
  {
    const double length = spline.getLength();
    V last{};
    const int steps = static_cast<int>(length / 0.1) + 1;
    std::vector<V> line;
    for (int i = 0; i <= steps; ++i) line.push_back(at(spline.getPoint(length * i / steps)));
    nearest = toLine(ring, line);
    crossed = nearest == 0;
    (void)last;
  }
  RoutingConfiguration how;
  how.allow_lane_change = true;
  const auto along = ts::longitudinalDistance(a, b, false, true, how);
  const double front = fb.center.x + fb.dimensions.x / 2, rear = tb.dimensions.x / 2 - tb.center.x;
  const auto [low, high] = spline.getAltitudeRange();
  const bool height = b.getAltitude() >= low - 1 && b.getAltitude() <= high + 1;
  if (!along || *along - front - rear < -1e-9 || !height) {
    if (along && *along > 0 && std::abs(*along - front - rear) < 1e-6) return;
    // beside or within one another it is not decided who is ahead
    if (height && along && *along <= 0 && *along + (fb.dimensions.x / 2 - fb.center.x) + (tb.dimensions.x / 2 + tb.center.x) > -1e-6) return;
    c.require(!got, "who is not ahead is ", show(got), " ahead");
    c.label(!height ? "other height" : "not ahead");
    return;
  }
  // whose box keeps clear of the way is no obstacle
  if (nearest > threshold + 0.1) {
    c.require(!got, "who stays ", nearest, " m beside the way is ", show(got), " ahead");
    c.label("beside");
  }
  const double want = *along - front - rear + fb.dimensions.x / 2;
  if (got) c.require(std::abs(*got - want) < 1e-6, "the distance ahead is ", show(got), ", not ", want);
  // on the way, with a corner well within reach or the way through the box
  const bool whole = want + std::hypot(tb.dimensions.x, tb.dimensions.y) + 1 < spline.getLength();
  if (whole && straight && (nearest < threshold - 0.15 || (crossed && n[lane].vehicle() && std::abs(to.offset + beside) < tb.dimensions.y / 4))) {
    bool far_turn = false;
    c.require(got.has_value() || far_turn, "who is ", nearest, " m beside the way is no obstacle");
    c.nontrivial(), c.label(beside != 0 ? "from the lane beside" : "ahead");
  }
  if (got) c.label("found");
}

VF_PROP("spline", 400, 6000)
{
  std::vector<geometry_msgs::msg::Point> points;
  const bool straight = s.chance(50);
  double yaw = s.real(-3, 3);
  V p{s.uniform(-100, 100), s.uniform(-100, 100), s.uniform(-2, 2)};
  const double apart = s.pick({2.0, 5.0, 10.0});
  for (std::size_t i = 3 + s.index(15); i-- > 0;) {
    points.push_back(lanes::points({p})[0]);
    p = p + V{std::cos(yaw) * apart, std::sin(yaw) * apart, 0};
    if (!straight) yaw += s.uniform(-0.03, 0.03) * apart;
  }
  const Spline spline(points);
  const double length = spline.getLength();
  const Box box = anyBox(s, true);
  const double diagonal = std::hypot(box.dimensions.x, box.dimensions.y);
  if (length < 2 * diagonal + 1) return;
  const double at_s = s.uniform(diagonal, length - diagonal), aside = s.uniform(-5, 5), turn = s.boolean() ? 0 : s.uniform(-3, 3);
  auto map = spline.getPose(at_s);
  const double heading = yawOf(map.orientation);
  map.position.x -= std::sin(heading) * aside, map.position.y += std::cos(heading) * aside;
  map.orientation = math::geometry::convertEulerAngleToQuaternion(geometry_msgs::build<geometry_msgs::msg::Vector3>().x(0).y(0).z(heading + turn));
  c.log << points.size() << " points " << apart << " m apart" << (straight ? ", straight" : "") << "; " << text(box) << " at " << at_s << " aside " << aside << " turned " << turn << "\n";
  const double got = ts::distanceToSpline(map, box, spline, at_s);
  double nearest = 1e300;
  for (auto & v : corners(map, box))
    for (int i = 0; i <= 2000; ++i) {
      const double t = std::clamp(at_s - diagonal + 2 * diagonal * i / 2000, 0.0, length);
      nearest = std::min(nearest, roads::norm2d(at(spline.getPoint(t)) - v));
    }
  c.require(got > nearest - 0.01, "the box is ", got, " m beside the curve, but no corner is nearer than ", nearest);
  c.require(got < nearest + (straight ? 0.06 : 0.3), "the box is ", got, " m beside the curve, but a corner is ", nearest, " away");
  c.nontrivial();
}

VF_PROP("conflicts", 400, 6000)
{
  auto net = roads::generate(s);
  auto & n = *net;
  const auto row = drive(s, n, 4);
  if (n.crosswalks.empty() || s.boolean())
    for (std::size_t i = 1 + s.index(2); i-- > 0;) {
      const auto & l = n[s.pick(row)];
      const double t = s.uniform(0.2, 0.8);
      const std::size_t m = l.left_bound.size() - 1, k = std::min<std::size_t>(m - 1, static_cast<std::size_t>(t * m));
      const V p = (l.left_bound[k] + l.right_bound[k]) * 0.5, q = (l.left_bound[k + 1] + l.right_bound[k + 1]) * 0.5;
      roads::addCrosswalk(n, p + (q - p) * 0.5, std::atan2(q.y - p.y, q.x - p.x) + s.uniform(-0.2, 0.2), n.nodes[0].width * s.uniform(0.6, 2), s.uniform(1, 4));
    }
  net->activate();
  c.log << n.text << "; drive " << text(row) << "\n";
  auto status = [&](const LaneletPose & p, const Box & b, bool in) {
    traffic_simulator_msgs::msg::EntityStatus e;
    e.name = "e";
    e.bounding_box = b;
    e.lanelet_pose = p, e.lanelet_pose_valid = in;
    std::optional<CanonicalizedLaneletPose> whole;
    if (in) whole.emplace(p), e.pose = ts::pose::toMapPose(*whole);
    return ts::CanonicalizedEntityStatus(ts::EntityStatus(e), whole);
  };
  const auto from = pose(row[0], n[row[0]].length * s.uniform(0.05, 0.7));
  const Box fb = anyBox(s, true);
  const auto points = plan(n, row, from.s, 1);
  if (points.size() < 4) return;
  const Spline spline(points);
  const auto me = status(from, fb, true);
  std::vector<ts::CanonicalizedEntityStatus> others;
  const auto walks = lw::lanelet_map::conflictingCrosswalkIds(row), crossing = lw::lanelet_map::conflictingLaneIds(row);
  std::optional<double> want;
  auto least = [&](const std::optional<double> & d) {
    if (d && (!want || *d < *want)) want = d;
  };
  for (std::size_t i = s.length(4); i-- > 0;) {
    std::vector<Id> among;
    if (s.chance(50)) among = n.crosswalks;
    if (among.empty() && s.chance(50)) among = crossing;
    if (among.empty()) among = n.ids;
    const Id id = s.pick(among);
    const auto p = pose(id, n[id].length * s.uniform(0.02, 0.98), 0);
    const Box b = anyBox(s, true);
    const bool in = s.chance(85);
    c.log << (in ? "another at " : "one outside of lanes near ") << lanes::text(p) << "\n";
    others.push_back(status(p, b, in));
    if (!in) continue;
    if (std::count(walks.begin(), walks.end(), id)) least(lw::distance::distanceToCrosswalk(spline, id)), c.label("on a crosswalk");
    if (std::count(crossing.begin(), crossing.end(), id)) least(ts::splineDistanceToBoundingBox(spline, CanonicalizedLaneletPose(from), fb, CanonicalizedLaneletPose(p), b, -1.0)), c.label("on a crossing lane");
  }
  const auto got = ts::distanceToNearestConflictingPose(row, spline, me, others);
  c.require(got.has_value() == want.has_value() && (!got || std::abs(*got - *want) < 1e-9), "the nearest conflict is ", show(got), " ahead, not ", show(want));
  if (got) c.nontrivial();
  c.require(!ts::distanceToNearestConflictingPose(row, spline, status(from, fb, false), others), "who is outside of lanes has a conflict");
}
