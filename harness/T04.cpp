// Routes, relations between lanes, lane changes and right of way, on generated road networks.
#include "ways.hpp"

#include <traffic_simulator/behavior/route_planner.hpp>
#include <traffic_simulator/helper/helper.hpp>

using namespace ways;
using ways::text;
namespace lw = traffic_simulator::lanelet_wrapper;
namespace ts = traffic_simulator;
using Type = RoutingGraphType;
using Ids = lanelet::Ids;

namespace
{
/// the lanes that follow a lane over a distance when the driver just goes on
void judgeFollowing(vf::Case & c, const Net & net, Id from, const Ids & list, std::size_t at, double distance, Type t, bool back)
{
  double sum = 0;
  Id now = from;
  for (std::size_t i = at; i < list.size(); ++i) {
    c.require(sum < distance, text(list), " goes on although ", sum, " m are enough");
    const auto options = following(net, now, t, back);
    c.require(std::count(options.begin(), options.end(), list[i]) == 1, list[i], back ? " does not lead to " : " does not follow ", now);
    bool straight = false;
    for (auto o : options) straight |= net[o].turn == "straight";
    c.require(!straight || net[list[i]].turn == "straight", now, " goes straight on, but ", list[i], " is taken");
    sum += net[list[i]].length;
    now = list[i];
  }
  c.require(sum >= distance || following(net, now, t, back).empty(), text(list), " ends after ", sum, " m of ", distance);
}
double sampledInside(const std::vector<V> & a, const std::vector<V> & b)
{
  // the depth of the deepest point found within both
  double deepest = -1, x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
  for (auto & p : a) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
  double u0 = 1e300, u1 = -1e300, v0 = 1e300, v1 = -1e300;
  for (auto & p : b) u0 = std::min(u0, p.x), u1 = std::max(u1, p.x), v0 = std::min(v0, p.y), v1 = std::max(v1, p.y);
  x0 = std::max(x0, u0), x1 = std::min(x1, u1), y0 = std::max(y0, v0), y1 = std::min(y1, v1);
  if (x0 > x1 || y0 > y1) return -1;
  for (int i = 0; i <= 40; ++i)
    for (int j = 0; j <= 40; ++j) {
      const V p{x0 + (x1 - x0) * i / 40, y0 + (y1 - y0) * j / 40, 0};
      if (insidePolygon(a, p) && insidePolygon(b, p)) deepest = std::max(deepest, std::min(toBorder(a, p), toBorder(b, p)));
    }
  return deepest;
}
bool apart(const std::vector<V> & a, const std::vector<V> & b, double by)
{
  for (auto & p : a)
    if (insidePolygon(b, p) || toBorder(b, p) < by) return false;
  for (auto & p : b)
    if (insidePolygon(a, p) || toBorder(a, p) < by) return false;
  // and no side crosses another
  for (std::size_t i = 0, j = a.size() - 1; i < a.size(); j = i++)
    for (std::size_t k = 0, m = b.size() - 1; k < b.size(); m = k++) {
      auto side = [](V p, V q, V r) { return (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x); };
      if (side(a[i], a[j], b[k]) * side(a[i], a[j], b[m]) <= 0 && side(b[k], b[m], a[i]) * side(b[k], b[m], a[j]) <= 0) return false;
    }
  return true;
}
}  // namespace

VF_PROP("relations", 400, 6000)
{
  auto net = roads::generate(s);
  net->activate();
  c.log << net->text << "\n";
  const auto & n = *net;
  if (n.lanes.size() > 2) c.nontrivial();
  std::set<Id> all;
  for (auto & [id, l] : n.lanes) all.insert(id);
  const auto told = lw::lanelet_map::laneletIds();
  c.require(told.size() == all.size() && as(told) == all, "the lanes of the map are ", text(told));
  for (const char * kind : {"road", "road_shoulder", "crosswalk", "walkway"}) {
    std::set<Id> want;
    for (auto id : all)
      if (n[id].subtype == kind) want.insert(id);
    c.require(as(lw::lanelet_map::filterLaneletIds(told, kind)) == want, "the lanes of kind ", kind, " are wrong");
  }
  std::vector<Id> some;
  for (int i = 0; i < 4; ++i) some.push_back(anyLane(s, n));
  const Type t = anyType(s);
  const std::string turn = s.pick({std::string("straight"), std::string("left"), std::string("right")});
  for (bool back : {false, true}) {
    std::set<Id> union_all, union_turn;
    for (auto id : some) {
      const auto want = as(following(n, id, t, back));
      std::set<Id> turned;
      for (auto o : want)
        if (n[o].turn == turn) turned.insert(o);
      union_all.insert(want.begin(), want.end()), union_turn.insert(turned.begin(), turned.end());
      const auto got = back ? lw::lanelet_map::previousLaneletIds(id, t) : lw::lanelet_map::nextLaneletIds(id, t);
      c.require(as(got) == want && got.size() == want.size(), "the ", back ? "previous" : "next", " lanes of ", id, " are ", text(got));
      c.require(as(back ? lw::lanelet_map::previousLaneletIds(id, turn, t) : lw::lanelet_map::nextLaneletIds(id, turn, t)) == turned, "the ", turn, " ones of the lanes beside ", id, " are wrong");
      if (!want.empty()) c.label("connected");
    }
    c.require(as(back ? lw::lanelet_map::previousLaneletIds(some, t) : lw::lanelet_map::nextLaneletIds(some, t)) == union_all, "the lanes of several lanes are not those of each");
    c.require(as(back ? lw::lanelet_map::previousLaneletIds(some, turn, t) : lw::lanelet_map::nextLaneletIds(some, turn, t)) == union_turn, "the turning lanes of several lanes are not those of each");
  }
  for (auto id : some) {
    const auto & l = n[id];
    using D = ts::lane_change::Direction;
    c.require(lw::lanelet_map::isInIntersection(id) == !l.turn.empty(), "whether ", id, " is in an intersection is wrong");
    for (bool left : {true, false}) {
      const Id o = beside(n, id, t, left);
      const auto got = lw::lane_change::laneChangeableLaneletId(id, left ? D::LEFT : D::RIGHT, t);
      c.require(got.value_or(0) == o, "the lane to the ", left ? "left" : "right", " of ", id, " is ", got.value_or(0), ", not ", o);
      Id now = id;
      std::vector<Id> chain;
      for (int shift = 0; shift < 4; ++shift) {
        const auto far = lw::lane_change::laneChangeableLaneletId(id, left ? D::LEFT : D::RIGHT, shift, t);
        c.require(far.value_or(0) == now, shift, " lanes to the ", left ? "left" : "right", " of ", id, " is ", far.value_or(0), ", not ", now);
        now = now ? beside(n, now, t, left) : 0;
        if (now) chain.push_back(now);
      }
      c.require(as(left ? lw::pose::leftLaneletIds(id, t, false) : lw::pose::rightLaneletIds(id, t, false)) == as(chain), "the lanes beside ", id, " are wrong");
    }
    c.require(lw::lane_change::laneChangeableLaneletId(id, D::STRAIGHT, t) == id, "the lane straight on is another one");
    const Id other = anyLane(s, n);
    c.require(lw::lane_change::canChangeLane(id, other, t) == (beside(n, id, t, true) == other || beside(n, id, t, false) == other), "whether lane ", id, " may be left for ", other, " is wrong");
    auto same = [](const std::vector<V> & a, const std::vector<geometry_msgs::msg::Point> & b) {
      if (a.size() != b.size()) return false;
      for (std::size_t i = 0; i < a.size(); ++i)
        if (roads::norm(a[i] - at(b[i])) > 1e-9) return false;
      return true;
    };
    c.require(same(l.left_bound, lw::lanelet_map::leftBound(id)), "the left bound of ", id, " is another one");
    c.require(same(l.right_bound, lw::lanelet_map::rightBound(id)), "the right bound of ", id, " is another one");
    auto ring = polygon(n, id);
    c.require(same(ring, lw::lanelet_map::laneletPolygon(id)), "the polygon of ", id, " is another one");
    const double at_s = l.length * s.uniform(-0.2, 1.2);
    c.require(lw::lanelet_map::isInLanelet(id, at_s) == (at_s >= 0 && at_s <= l.length), "whether s = ", at_s, " is in ", id, " is wrong");
    const auto spline = curve(n, id);
    auto mid = spline->getPoint(spline->getLength() * s.uniform(0, 1));
    const double side = s.uniform(-1, 1) * n.nodes[0].width, angle = s.uniform(-M_PI, M_PI);
    mid.x += side * std::cos(angle), mid.y += side * std::sin(angle);
    if (toBorder(ring, lanes::at(mid)) > 1e-6) c.require(lw::lanelet_map::isInLanelet(id, mid) == insidePolygon(ring, lanes::at(mid)), "whether a point is in ", id, " is wrong");
    // the height of the lane at a place: between the ends of the centre line's parts nearby
    Pose p;
    p.position = mid;
    const auto height = ts::laneletAltitude(id, p, 3.0);
    if (height) {
      double low = 1e300, high = -1e300, nearest = 1e300;
      for (std::size_t i = 1; i < l.center.size(); ++i) {
        const double d = toSegment2d(lanes::at(mid), l.center[i - 1], l.center[i]);
        nearest = std::min(nearest, d);
        if (d < 4.5) low = std::min({low, l.center[i - 1].z, l.center[i].z}), high = std::max({high, l.center[i - 1].z, l.center[i].z});
      }
      c.require(nearest < 3.5 && *height > low - 0.3 && *height < high + 0.3, "the height of ", id, " is ", *height, ", not between ", low, " and ", high);
      c.label("height");
    }
  }
  // joined centre lines contain each point once in a row
  {
    std::vector<Id> row{n.ids[0]};
    while (row.size() < 4 && !n[row.back()].next.empty()) row.push_back(s.pick(n[row.back()].next));
    std::vector<V> want;
    for (auto id : row) {
      auto center = n[id].center;
      if (center.size() == 2) center.insert(center.begin() + 1, (center[0] + center[1]) * 0.5);
      for (auto & p : center)
        if (want.empty() || !(roads::norm(want.back() - p) < 1e-6)) want.push_back(p);
    }
    const auto got = lw::lanelet_map::centerPoints(row);
    bool same = want.size() == got.size();
    for (std::size_t i = 0; same && i < got.size(); ++i) same = roads::norm(want[i] - lanes::at(got[i])) < 1e-9;
    c.require(same, "the joined centre line of ", text(row), " is another one");
    c.require(lw::lanelet_map::centerPoints(Ids{}).empty(), "no lanes have a centre line");
  }
  // lanes where the road ends
  {
    std::set<Id> want;
    for (auto id : all)
      if (following(n, id, Type::VEHICLE_WITH_ROAD_SHOULDER).empty()) want.insert(id);
    std::set<Id> got;
    for (auto & [id, p] : ts::noNextLaneletPoses()) {
      got.insert(id);
      c.require(roads::norm2d(lanes::at(p.position) - lanes::at(curve(n, id)->getPoint(n[id].length))) < 1e-3, "the end of ", id, " is elsewhere");
    }
    c.require(got == want, "the lanes at which the road ends are others");
  }
  // lanes near a place
  {
    Pose p;
    p.position = curve(n, s.pick(n.ids))->getPoint(0.0);
    p.position.x += s.uniform(-20, 20), p.position.y += s.uniform(-20, 20);
    const double within = s.uniform(0, 30);
    const bool crosswalks = s.boolean();
    const std::size_t count = s.boolean() ? all.size() : 1 + s.index(3);
    const auto got = ts::nearbyLaneletIds(p, within, crosswalks, count);
    std::map<Id, double> d;
    for (auto id : all) {
      const auto ring = polygon(n, id);
      d[id] = insidePolygon(ring, lanes::at(p.position)) ? 0 : toBorder(ring, lanes::at(p.position));
    }
    double furthest = 0;
    for (auto id : got) {
      c.require(d[id] <= within + 1e-6, id, " is ", d[id], " m away, not within ", within);
      c.require(crosswalks || n[id].subtype != "crosswalk", id, " is a crosswalk");
      c.require(d[id] >= furthest - 1e-6, "the lanes nearby are not in the order of their distance");
      furthest = d[id];
    }
    c.require(as(got).size() == got.size() && got.size() <= count, "more lanes than asked for, or a lane twice");
    std::size_t nearer = 0, ties = 0;
    for (auto id : all) {
      if (d[id] > within - 1e-6 || (!crosswalks && n[id].subtype == "crosswalk") || std::count(got.begin(), got.end(), id)) continue;
      nearer = ties = 0;
      for (auto o : all) nearer += d[o] < d[id] + 1e-6 && o != id;
      c.require(nearer >= count, id, " is missing from the lanes nearby");
    }
    if (!got.empty()) c.label("nearby");
  }
}

VF_PROP("routes", 500, 8000)
{
  auto net = roads::generate(s);
  net->activate();
  c.log << net->text << "\n";
  const auto & n = *net;
  std::map<std::tuple<Id, Id, int, bool>, Ids> before;
  for (int i = 0; i < 8; ++i) {
    RoutingConfiguration how;
    how.routing_graph_type = anyType(s);
    how.allow_lane_change = s.boolean();
    const Type t = how.routing_graph_type;
    Id from = anyLane(s, n), to = anyLane(s, n);
    if (!before.empty() && s.chance(40)) {  // the way back, or another way for the same lanes
      auto k = before.begin();
      std::advance(k, s.index(before.size()));
      from = std::get<0>(k->first), to = std::get<1>(k->first);
      if (s.chance(20)) std::swap(from, to);
    }
    c.log << "from " << from << " to " << to << (how.allow_lane_change ? " with lane changes" : "") << " as " << static_cast<int>(t) << "\n";
    const auto route = s.boolean() ? lw::route::routeFromGraph(from, to, how) : ts::routeFromGraph(from, to, how);
    auto & earlier = before.try_emplace({from, to, static_cast<int>(t), how.allow_lane_change}, route).first->second;
    c.require(earlier == route, "asked again, the route is another one");
    const auto cost = costs(n, from, t, how.allow_lane_change);
    const auto changes = lw::lane_change::countLaneChanges(from, to, how);
    c.require(changes.has_value() == !route.empty(), "lane changes are counted without a route, or not with one");
    if (!cost.count(to)) {
      c.require(route.empty(), "there is no route, but ", text(route), " is found");
      c.label("no route");
      continue;
    }
    c.require(!route.empty(), "there is a route, but none is found");
    c.require(route.front() == from && route.back() == to, text(route), " does not lead there");
    double sum = 0;
    int left = 0, right = 0;
    for (std::size_t k = 1; k < route.size(); ++k) {
      const char how_on = step(n, route[k - 1], route[k], t);
      c.require(how_on != 'x' && (how_on == 'n' || how.allow_lane_change), "no way leads from ", route[k - 1], " to ", route[k]);
      sum += how_on == 'n' ? n[route[k - 1]].length : 10;
      left += how_on == 'l', right += how_on == 'r';
    }
    c.require(sum <= cost.at(to) * 1.05 + 0.5, text(route), " costs ", sum, " although ", cost.at(to), " is possible");
    c.require(changes->first == left && changes->second == right, changes->first, " and ", changes->second, " lane changes to the left and right are counted instead of ", left, " and ", right);
    if (route.size() > 1) c.nontrivial(), c.label(left + right ? "with lane changes" : "along the lanes");
    for (auto id : route) c.require(lw::route::isInRoute(id, route) && ts::route::isInRoute(id, route), id, " is not in its route");
    const Id other = anyLane(s, n);
    c.require(ts::route::isInRoute(other, route) == (std::count(route.begin(), route.end(), other) > 0), "whether ", other, " is in the route is wrong");
  }
  // just going on
  {
    const Type t = s.pick({Type::VEHICLE_WITH_ROAD_SHOULDER, Type::VEHICLE});
    const Id id = anyLane(s, n);
    const double distance = s.chance(10) ? 0 : s.uniform(0, 200);
    const bool self = s.boolean();
    const auto ahead = ts::route::followingLanelets(id, distance, self, t);
    c.require(!self || (!ahead.empty() && ahead[0] == id), "the lane itself is not first");
    judgeFollowing(c, n, id, ahead, self ? 1 : 0, distance, t, false);
    const auto behind = ts::route::previousLanelets(id, distance, t);
    c.require(!behind.empty() && behind[0] == id, "the lane itself is not first");
    judgeFollowing(c, n, id, behind, 1, distance, t, true);
    // along a route
    Ids route{s.pick(n.ids)};
    while (route.size() < 6) {
      const auto o = following(n, route.back(), t);
      if (o.empty() || !passable(n, route.back(), t)) break;
      route.push_back(s.pick(o));
    }
    const std::size_t k = s.index(route.size());
    const Id now = route[k];
    const std::size_t first = std::find(route.begin(), route.end(), now) - route.begin();
    c.log << "along " << text(route) << " from " << now << " for " << distance << " m\n";
    if (self || first + 1 < route.size()) {
      const auto got = ts::route::followingLanelets(now, route, distance, self, t);
      double sum = 0;
      std::size_t g = 0;
      if (self) c.require(got.at(g++) == now, "the lane itself is not first");
      std::size_t r = first + 1;
      for (; r < route.size(); ++r) {
        c.require(g < got.size(), text(got), " ends on the route after ", sum, " m");
        c.require(got[g] == route[r], text(got), " does not follow the route");
        sum += n[got[g++]].length;
        if (sum > distance) break;
      }
      if (sum > distance) c.require(g == got.size(), text(got), " goes on although ", sum, " m are enough");
      else if (g == got.size()) c.require(sum >= distance || following(n, route.back(), t).empty(), text(got), " ends after ", sum, " m");
      else judgeFollowing(c, n, route.back(), got, g, distance - sum, t, false);
      c.label("along a route");
    }
    c.require(ts::route::followingLanelets(now, Ids{}, distance, self, t).empty(), "an empty route leads somewhere");
    const Id off = anyLane(s, n);
    if (!std::count(route.begin(), route.end(), off)) VF_THROWS(common::SemanticError, ts::route::followingLanelets(off, route, distance, self, t));
    if (route.size() > 2) {
      auto broken = route;
      broken.erase(broken.begin() + 1);
      if (step(n, broken[0], broken[1], t) != 'n') VF_THROWS(common::SemanticError, ts::route::followingLanelets(broken[0], broken, 1e6, self, t));
    }
  }
  // the slowest lane counts
  {
    Ids list;
    const std::size_t k = s.length(4);
    double want = 1e300;
    for (std::size_t i = 0; i < k; ++i) {
      list.push_back(s.pick(n.ids));
      want = std::min(want, (n[list.back()].speed_limit > 0 ? n[list.back()].speed_limit : 50) / 3.6);
    }
    if (list.empty()) VF_THROWS(common::SemanticError, ts::route::speedLimit(list));
    else {
      const double got = ts::route::speedLimit(list, s.pick({Type::VEHICLE_WITH_ROAD_SHOULDER, Type::VEHICLE}));
      c.require(std::abs(got - want) < 1e-9, "the speed limit of ", text(list), " is ", got, ", not ", want);
    }
  }
  // backwards from a place
  {
    const auto p = CanonicalizedLaneletPose(somewhere(s, n, n.ids, 0.3));
    const auto lp = static_cast<LaneletPose>(p);
    bool even = true;  // centre lines of their own are spaced otherwise, which bends the curve through both
    for (auto & [id, l] : n.lanes) even &= !l.custom;
    if ((lp.s > 5.001 || !n[lp.lanelet_id].previous.empty()) && even) {
      const auto points = ts::route::moveBackPoints(p);
      c.require(points.size() >= 5, "the way back of ", lanes::text(lp), " has ", points.size(), " points only");
      // the points lie one metre apart behind the place, beside the centre line by the offset
      Walk w;
      for (std::size_t i = 0; i < points.size(); ++i) {
        double nearest = 1e300;
        const auto place = lanes::at(points[i]);
        for (double d = 0; d <= 6.5; d += 0.1) {
          Walk w;
          walk(n, lp.lanelet_id, lp.s - d, w, false, false, nullptr);
          for (auto & [id, at_s] : w.ends) nearest = std::min(nearest, roads::norm2d(lanes::at(lw::pose::toMapPose(lanes::pose(id, at_s, lp.offset)).pose.position) - place));
        }
        Walk end;
        walk(n, lp.lanelet_id, lp.s - 6.5, end, false, false, nullptr);
        if (end.dead.empty()) c.require(nearest < 0.6, "point ", i, " of the way back from ", lanes::text(lp), " is ", nearest, " m beside the lanes behind");
      }
      c.require(roads::norm2d(lanes::at(points.front()) - lanes::at(static_cast<Pose>(p).position)) < 1.8, "the way back starts elsewhere");
      if (lp.s < 5) c.label("back into another lane");
    }
  }
}

VF_PROP("planner", 500, 8000)
{
  roads::Options o;
  o.crosswalks = false;
  auto net = roads::generate(s, o);
  net->activate();
  c.log << net->text << "\n";
  const auto & n = *net;
  const Type t = s.chance(70) ? Type::VEHICLE_WITH_ROAD_SHOULDER : Type::VEHICLE;
  ts::RoutePlanner planner(t);
  LaneletPose now = somewhere(s, n, n.ids, 0.2);
  // goals along a drive, so that a route to each exists from the one before
  auto goals = [&](const LaneletPose & from) {
    std::vector<LaneletPose> g;
    Id id = from.lanelet_id;
    double at_s = from.s;
    const std::size_t count = s.length(1, 3);
    for (std::size_t i = 0; i < count; ++i) {
      const std::size_t hops = s.index(4);
      bool moved = false;
      for (std::size_t k = 0; k < hops; ++k) {
        const auto next = following(n, id, t);
        if (next.empty()) break;
        id = s.pick(next), moved = true;
      }
      at_s = moved ? n[id].length * s.uniform(0.1, 0.9) : at_s + (n[id].length - at_s) * s.uniform(0.2, 0.9);
      g.push_back(lanes::pose(id, at_s));
    }
    return g;
  };
  std::vector<LaneletPose> left;
  auto assign = [&] {
    left = goals(now);
    std::vector<CanonicalizedLaneletPose> w;
    Ids whole;
    c.log << "goals:";
    for (auto & g : left) {
      w.emplace_back(g), c.log << " " << lanes::text(g);
      if (whole.empty() || whole.back() != g.lanelet_id) whole.push_back(g.lanelet_id);
    }
    c.log << "\n";
    planner.setWaypoints(w);
    c.require(planner.getWholeRouteLanelets() == whole, "the lanes of the goals are ", text(planner.getWholeRouteLanelets()));
    const auto told = planner.getGoalPoses();
    c.require(told.size() == left.size() && planner.getGoalPosesInWorldFrame().size() == left.size(), "the goals are not those that were set");
    for (std::size_t i = 0; i < told.size(); ++i) c.require(static_cast<LaneletPose>(told[i]).lanelet_id == left[i].lanelet_id && std::abs(static_cast<LaneletPose>(told[i]).s - left[i].s) < 1e-9, "goal ", i, " is another one");
  };
  if (s.chance(90)) assign();
  const double horizon = s.pick({100.0, 30.0, 5.0, 200.0});
  const std::size_t steps = s.length(4, 40);
  for (std::size_t i = 0; i < steps; ++i) {
    const CanonicalizedLaneletPose here(now);
    const auto route = planner.getRouteLanelets(here, horizon);
    // goals that were passed no longer count; one ahead in the same lane may be dropped together with them
    std::size_t told = planner.getGoalPoses().size();
    std::size_t passed = 0, same = 0;
    while (passed < left.size() && left[passed].lanelet_id == now.lanelet_id && left[passed].s <= now.s) ++passed;
    same = passed;
    while (same < left.size() && left[same].lanelet_id == now.lanelet_id) ++same;
    c.require(told <= left.size() - passed && told >= left.size() - same, "at ", lanes::text(now), " ", told, " of ", left.size(), " goals are left");
    left.erase(left.begin(), left.end() - told);
    c.require(!route.empty() && route[0] == now.lanelet_id, "the route ", text(route), " does not start at ", lanes::text(now));
    double sum = 0;
    for (std::size_t k = 1; k < route.size(); ++k) {
      const auto next = following(n, route[k - 1], t);
      c.require(std::count(next.begin(), next.end(), route[k]) == 1, route[k], " does not follow ", route[k - 1]);
      sum += n[route[k]].length;
    }
    c.require(sum >= horizon || following(n, route.back(), t).empty(), "the route ", text(route), " ends after ", sum, " m");
    if (!left.empty() && left[0].lanelet_id != now.lanelet_id) {
      const auto cost = costs(n, now.lanelet_id, t, false);
      c.require(cost.count(left[0].lanelet_id) > 0, "harness: the goal cannot be reached");
      const auto found = std::find(route.begin(), route.end(), left[0].lanelet_id);
      if (found == route.end()) {
        // beyond the horizon: the route must still be one to the goal
        c.require(sum >= horizon, "the route ", text(route), " misses the goal ", lanes::text(left[0]));
        bool leads = false;
        for (auto & [id, d] : costs(n, route.back(), t, false)) leads |= id == left[0].lanelet_id;
        c.require(leads, "no way leads from the route ", text(route), " to the goal ", lanes::text(left[0]));
      } else {
        double way = 0;
        for (auto k = route.begin(); k != found; ++k) way += n[*k].length;
        c.require(way <= cost.at(left[0].lanelet_id) * 1.05 + 0.5, "the route ", text(route), " is ", way, " m long although ", cost.at(left[0].lanelet_id), " m are possible");
      }
      c.label("on the way to a goal");
      c.nontrivial();
    }
    // move on
    const double d = s.uniform(0, 4);
    now.s += d;
    Id id = now.lanelet_id;
    bool stuck = false;
    std::size_t at_route = 0;
    while (now.s > n[id].length) {
      now.s -= n[id].length;
      if (++at_route >= route.size()) { stuck = true; break; }
      // a goal that is jumped over would not be noticed
      id = route[at_route];
    }
    if (stuck) break;
    bool jumped = false;
    for (std::size_t k = 0; k < at_route; ++k)
      if (!left.empty() && route[k] == left[0].lanelet_id) jumped = true;
    now.lanelet_id = id;
    if (jumped || s.chance(3)) assign();
    else if (s.chance(2)) {
      planner.cancelRoute();
      left.clear();
      c.require(planner.getGoalPoses().empty(), "goals are left after the route was cancelled");
    }
    c.log << lanes::text(now) << "\n";
  }
}

VF_PROP("change", 500, 8000)
{
  auto net = roads::generate(s);
  net->activate();
  c.log << net->text << "\n";
  const auto & n = *net;
  std::vector<Id> with;
  for (auto id : n.ids)
    if (n[id].left || n[id].right) with.push_back(id);
  const bool plain = with.empty() || s.chance(10);
  auto from = somewhere(s, n, plain ? n.ids : with, 0.2);
  if (s.boolean()) from.rpy.z = s.uniform(-0.2, 0.2);
  const auto & l = n[from.lanelet_id];
  Id to = l.left && (!l.right || s.boolean()) ? l.left : l.right;
  if (!to || s.chance(10)) to = s.pick(n.ids);
  using namespace ts::lane_change;
  Parameter how;
  how.target.lanelet_id = to;
  how.trajectory_shape = s.boolean() ? TrajectoryShape::CUBIC : TrajectoryShape::LINEAR;
  how.constraint.type = s.pick({Constraint::Type::NONE, Constraint::Type::LONGITUDINAL_DISTANCE, Constraint::Type::LATERAL_VELOCITY, Constraint::Type::TIME});
  how.constraint.value = s.uniform(3, 40);
  if (s.boolean()) how.target.offset = s.uniform(-0.5, 0.5);
  c.log << "from " << lanes::text(from) << " to lane " << to << " offset " << how.target.offset << (how.trajectory_shape == TrajectoryShape::LINEAR ? " linear" : " cubic") << " constraint " << how.constraint.type << " " << how.constraint.value << "\n";
  const CanonicalizedLaneletPose whole(from);
  const auto start = lw::pose::toMapPose(static_cast<LaneletPose>(whole)).pose;
  std::optional<std::pair<math::geometry::HermiteCurve, double>> got;
  const bool may = (l.left == to || l.right == to) && to;
  const double distance = how.constraint.type == Constraint::Type::LONGITUDINAL_DISTANCE ? how.constraint.value : 20.0;
  // the place further on beside which the change ends
  Walk w;
  walk(n, from.lanelet_id, from.s + distance, w, true, true, nullptr);
  const bool none = how.constraint.type == Constraint::Type::NONE;
  if (may && !none && w.ends.empty()) {
    VF_THROWS(common::Error, ts::route::laneChangeTrajectory(whole, how));
    c.label("dead end");
    return;
  }
  if (!w.dead.empty() && !none) return;  // which way is taken decides
  got = ts::route::laneChangeTrajectory(whole, how);
  if (!may) {
    c.require(!got, "a lane change that is not possible is planned");
    c.label("not beside");
    return;
  }
  const auto target = curve(n, to);
  auto place = [&](double at_s, double offset) {
    const auto p = target->getPoint(at_s);
    const auto t = target->getTangentVector(at_s);
    const double k = std::hypot(t.x, t.y);
    return V{p.x - t.y / k * offset, p.y + t.x / k * offset, p.z};
  };
  // the curve from the start to a place in the target lane
  auto planned = [&](double at_s, double offset) {
    const V e = place(at_s, offset), d = e - lanes::at(start.position);
    Pose end;
    end.position.x = e.x, end.position.y = e.y, end.position.z = e.z;
    geometry_msgs::msg::Vector3 a, b;
    if (how.trajectory_shape == TrajectoryShape::LINEAR) a.x = d.x, a.y = d.y, a.z = d.z, b = a;
    else {
      const double size = roads::norm(d) * 0.5, yaw = yawOf(start.orientation);
      a.x = size * std::cos(yaw), a.y = size * std::sin(yaw);
      b = target->getTangentVector(at_s);
      b.x *= size, b.y *= size, b.z *= size;
    }
    return math::geometry::HermiteCurve(start, end, a, b);
  };
  auto follows = [&](const math::geometry::HermiteCurve & curve, const math::geometry::HermiteCurve & want) {
    double worst = 0;
    for (int i = 0; i <= 20; ++i) worst = std::max(worst, roads::norm(lanes::at(curve.getPoint(i / 20.0)) - lanes::at(want.getPoint(i / 20.0))));
    return worst;
  };
  const double yaw = yawOf(start.orientation);
  if (none) {
    double best = 1e300;
    bool any = false, unsure = false;
    for (double at_s = 0; at_s < n[to].length; at_s += 1) {
      const V d = place(at_s, 0) - lanes::at(start.position);
      const double ahead = d.x * std::cos(yaw) + d.y * std::sin(yaw);
      if (std::abs(ahead - 1) < 0.02) unsure = true;
      if (ahead <= 1) continue;
      const auto curve = planned(at_s, 0);
      const double bend = curve.getMaximum2DCurvature();
      if (std::abs(bend - 10) < 0.5) unsure = true;
      if (!(bend < 10)) continue;
      any = true;
      best = std::min(best, std::abs(20 - curve.getLength()));
    }
    if (unsure) return;
    c.require(got.has_value() == any, any ? "no lane change is planned although one is possible" : "a lane change is planned although none is possible");
    if (!got) { c.label("none possible"); return; }
    const double at_s = got->second;
    c.require(at_s >= 0 && at_s < n[to].length && std::abs(at_s - std::round(at_s)) < 1e-9, "the change ends at ", at_s);
    c.require(std::abs(std::abs(20 - got->first.getLength()) - best) < 0.05, "the change is ", got->first.getLength(), " m long although one is within ", best, " m of 20 m");
    c.require(follows(got->first, planned(at_s, 0)) < 0.02, "the change does not lead smoothly from the start to ", at_s, " in lane ", to);
    c.label("free");
  } else {
    const auto [id, along] = w.ends[0];
    if (w.ends.size() > 1) return;
    const auto from_curve = curve(n, id);
    const auto p = from_curve->getPoint(along);
    const auto t = from_curve->getTangentVector(along);
    const double k = std::hypot(t.x, t.y), x = from.offset;
    const V aside{-t.y / k, t.x / k, 0}, forward{t.x / k, t.y / k, 0}, beside = lanes::at(p) + aside * x;
    if (!got) {
      // the target lane does not pass by within five metres
      for (double at_s = 0.2; at_s < target->getLength() - 0.2; at_s += 0.1) {
        const V d = lanes::at(target->getPoint(at_s)) - beside, e = lanes::at(target->getPoint(at_s - 0.1)) - beside;
        auto dot = [](V a, V b) { return a.x * b.x + a.y * b.y; };
        c.require(!(dot(d, forward) * dot(e, forward) < 0 && std::abs(dot(d, aside)) < 4.9), "no lane change is planned although lane ", to, " passes by at ", at_s);
      }
      c.label("too late");
      return;
    }
    const V d = lanes::at(target->getPoint(got->second)) - beside;
    c.require(std::abs(d.x * forward.x + d.y * forward.y) < 0.02, "the change to lane ", to, " ends ", d.x * forward.x + d.y * forward.y, " m after the place ", distance, " m further on");
    c.require(std::abs(d.x * aside.x + d.y * aside.y) < 5.01, "the lane change ends more than 5 m aside");
    c.require(follows(got->first, planned(got->second, how.target.offset)) < 0.02, "the change does not lead smoothly from the start to ", got->second, " in lane ", to, " with offset ", how.target.offset);
    c.label("at a distance");
  }
  c.nontrivial();
  // the points still to be driven
  const auto & curve = got->first;
  const double done = curve.getLength() * s.uniform(0, 1.1);
  const auto points = ts::route::laneChangePoints(curve, done);
  c.require(!points.empty(), "no points are left of the lane change");
  if (done < curve.getLength()) {
    for (std::size_t i = 0; i < points.size(); ++i) c.require(roads::norm(lanes::at(points[i]) - lanes::at(curve.getPoint(done + 1.0 + i, true))) < 1e-6, "point ", i, " of the rest of the lane change is elsewhere");
    c.require(points.size() == static_cast<std::size_t>(std::floor(curve.getLength() - done)) + 1 || std::abs(std::remainder(curve.getLength() - done, 1.0)) < 1e-6, "the rest of the lane change has ", points.size(), " points");
  }
  if (how.constraint.type == Constraint::Type::LONGITUDINAL_DISTANCE || none) {
    if (w.dead.empty() && !atBorder(n, w)) {
      const auto ahead = ts::route::laneChangeAlongLaneletPose(whole, how);
      c.require(among(w.ends, ahead.lanelet_id, ahead.s), "the place where the lane change ends is ", lanes::text(ahead));
    }
  }
}

VF_PROP("rules", 400, 6000)
{
  auto net = roads::generate(s);
  auto & n = *net;
  struct Sign
  {
    bool stop;
    std::vector<Id> on, lines;
  };
  std::vector<Sign> signs;
  std::map<Id, std::vector<V>> lines;
  auto line = [&](const char * type) {
    std::vector<lanelet::Point3d> p;
    std::vector<V> v;
    for (int i = 0; i < 2; ++i) {
      v.push_back({s.uniform(-50, 50), s.uniform(-50, 50), s.uniform(-1, 1)});
      p.emplace_back(n.fresh(), v.back().x, v.back().y, v.back().z);
    }
    lanelet::LineString3d l(n.fresh(), p);
    l.setAttribute("type", type);
    lines[l.id()] = v;
    n.map->add(l);
    return l;
  };
  const std::size_t count = s.length(3);
  for (std::size_t i = 0; i < count; ++i) {
    Sign sign;
    sign.stop = s.chance(70);
    auto e = std::make_shared<lanelet::TrafficSign>();
    e->id_ = n.fresh();
    auto board = line("traffic_sign");
    board.setAttribute("subtype", sign.stop ? "stop_sign" : "other");
    e->lines["refers"].push_back(board);
    const std::size_t k = s.length(2);
    for (std::size_t j = 0; j < k; ++j) {
      auto l = line("stop_line");
      sign.lines.push_back(l.id());
      e->lines["ref_line"].push_back(l);
    }
    const std::size_t m = 1 + s.index(2);
    for (std::size_t j = 0; j < m; ++j) {
      const Id id = s.pick(n.ids);
      if (std::count(sign.on.begin(), sign.on.end(), id)) continue;
      sign.on.push_back(id);
      n.map->laneletLayer.get(id).addRegulatoryElement(e);
    }
    n.map->add(e);
    signs.push_back(sign);
    c.log << (sign.stop ? "stop sign on " : "sign on ") << text(sign.on) << " with lines " << text(sign.lines) << "\n";
  }
  std::map<Id, std::set<Id>> right;  // lanes that have the right of way before a lane
  const std::size_t rows = s.length(3);
  for (std::size_t i = 0; i < rows; ++i) {
    auto e = std::make_shared<lanelet::RightOfWay>();
    e->id_ = n.fresh();
    std::vector<Id> first, wait, on;
    for (std::size_t j = 1 + s.index(2); j-- > 0;) first.push_back(s.pick(n.ids));
    for (std::size_t j = 1 + s.index(2); j-- > 0;) wait.push_back(s.pick(n.ids));
    for (auto id : first) e->lanelets["right_of_way"].push_back(n.map->laneletLayer.get(id));
    for (auto id : wait) e->lanelets["yield"].push_back(n.map->laneletLayer.get(id));
    for (auto & v : {first, wait})
      for (auto id : v)
        if (s.chance(70) && !std::count(on.begin(), on.end(), id)) on.push_back(id);
    for (auto id : on) {
      n.map->laneletLayer.get(id).addRegulatoryElement(e);
      for (auto f : first)
        if (f != id) right[id].insert(f);
    }
    n.map->add(e);
    c.log << text(first) << " before " << text(wait) << " on " << text(on) << "\n";
  }
  net->activate();
  c.log << net->text << "\n";
  if (count + rows || !n.crosswalks.empty()) c.nontrivial();
  Ids path;
  for (std::size_t i = s.length(4); i-- > 0;) path.push_back(s.pick(n.ids));
  auto bag = [](Ids v) { std::sort(v.begin(), v.end()); return v; };
  Ids all_lines, path_lines;
  std::size_t on_path = 0;
  for (auto & sign : signs) {
    if (sign.stop)
      for (auto id : sign.on) (void)id, all_lines.insert(all_lines.end(), sign.lines.begin(), sign.lines.end());
    for (auto p : path)
      if (std::count(sign.on.begin(), sign.on.end(), p)) {
        ++on_path;
        if (sign.stop) path_lines.insert(path_lines.end(), sign.lines.begin(), sign.lines.end());
      }
  }
  c.require(bag(lw::lanelet_map::stopLineIds()) == bag(all_lines), "the stop lines are ", text(lw::lanelet_map::stopLineIds()));
  c.require(bag(lw::lanelet_map::stopLineIdsOnPath(path)) == bag(path_lines), "the stop lines on ", text(path), " are ", text(lw::lanelet_map::stopLineIdsOnPath(path)));
  c.require(lw::lanelet_map::trafficSignsOnPath(path).size() == on_path, "the number of traffic signs on ", text(path), " is wrong");
  if (!path_lines.empty()) c.label("stop lines");
  for (auto & [id, v] : lines) {
    const auto got = lw::lanelet_map::stopLinePolygon(id);
    c.require(got.size() == 2 && roads::norm(lanes::at(got[0]) - v[0]) < 1e-9 && roads::norm(lanes::at(got[1]) - v[1]) < 1e-9, "stop line ", id, " lies elsewhere");
  }
  for (auto id : n.ids) {
    const auto got = lw::lanelet_map::rightOfWayLaneletIds(id);
    c.require(as(got) == right[id], "the lanes with right of way before ", id, " are ", text(got));
  }
  const auto per = lw::lanelet_map::rightOfWayLaneletIds(path);
  c.require(per.size() == as(path).size(), "right of way is reported for other lanes");
  for (auto id : path) c.require(as(per.at(id)) == right[id], "the lanes with right of way before ", id, " are others for the path");
  std::vector<CanonicalizedLaneletPose> others;
  std::vector<Id> there;
  for (std::size_t i = s.length(3); i-- > 0;) {
    auto p = somewhere(s, n, !n.crosswalks.empty() && s.chance(25) ? n.crosswalks : n.ids, 0.1);
    p.s = std::clamp(p.s, 0.01, n[p.lanelet_id].length - 0.01);
    others.emplace_back(p), there.push_back(p.lanelet_id);
  }
  c.log << "path " << text(path) << ", others on " << text(there) << "\n";
  {
    bool want = false;
    for (auto o : there)
      for (auto f : path) want |= right[f].count(o) && !right[o].count(f);
    c.require(ts::route::isNeedToRightOfWay(path, others) == want, want ? "no other entity has the right of way, it is said" : "another entity is said to have the right of way");
    if (want) c.label("give way");
  }
  // lanes and crosswalks that cross the path
  {
    const auto walks = as(lw::lanelet_map::conflictingCrosswalkIds(path)), crossing = as(lw::lanelet_map::conflictingLaneIds(path));
    bool sure = true;
    std::set<Id> conflict;
    for (auto & [id, l] : n.lanes) {
      const auto ring = polygon(n, id);
      bool must = false, may = false;
      for (auto f : path) {
        if (f == id) continue;
        const auto & m = n[f];
        if (l.subtype != "crosswalk" && (std::count(m.next.begin(), m.next.end(), id) || std::count(m.previous.begin(), m.previous.end(), id) || m.left == id || m.right == id)) continue;
        const auto mine = polygon(n, f);
        // lanes of one fork or merge may run on top of each other, where rounding decides
        const bool siblings = l.subtype != "crosswalk" && (n.roads[l.road].from == n.roads[m.road].from || n.roads[l.road].to == n.roads[m.road].to);
        if (siblings) may = true;
        else if (sampledInside(ring, mine) > 0.05) must = true, may = true;
        else if (!apart(ring, mine, 0.05)) may = true;
      }
      const auto & got = l.subtype == "crosswalk" ? walks : crossing;
      c.require(!must || got.count(id), id, " crosses the path but is not reported");
      c.require(may || !got.count(id), id, " is reported to cross the path");
      if (must) conflict.insert(id);
      if (may && !must) sure = false;
    }
    for (auto id : walks) c.require(n[id].subtype == "crosswalk", id, " is no crosswalk");
    for (auto id : crossing) c.require(n[id].subtype != "crosswalk", id, " is a crosswalk");
    if (sure) {
      bool want = false;
      for (auto o : there) want |= conflict.count(o) > 0;
      c.require(ts::route::isAnyConflictingEntity(path, others) == want, want ? "an entity on a crossing lane is missed" : "an entity is said to be in conflict");
      if (want) c.label("conflict");
    }
  }
}
