// Which lanes lead on from a lane, worked out from the generated roads alone.
#ifndef WAYS_HPP_
#define WAYS_HPP_
#include "lanes.hpp"

namespace ways
{
using namespace lanes;
using Type = RoutingGraphType;
using Ids = lanelet::Ids;
inline bool passable(const Net & net, Id id, Type t)
{
  const auto & l = net[id];
  return t == Type::PEDESTRIAN ? l.subtype == "crosswalk" : t == Type::VEHICLE ? l.subtype == "road" : l.subtype != "crosswalk";
}
inline std::vector<Id> following(const Net & net, Id id, Type t, bool back = false)
{
  std::vector<Id> r;
  if (passable(net, id, t))
    for (auto o : back ? net[id].previous : net[id].next)
      if (passable(net, o, t)) r.push_back(o);
  return r;
}
inline Id beside(const Net & net, Id id, Type t, bool left)
{
  const auto & l = net[id];
  const Id o = left ? l.left : l.right;
  if (!o || !passable(net, id, t) || !passable(net, o, t) || t == Type::PEDESTRIAN) return 0;
  return t == Type::VEHICLE_WITH_ROAD_SHOULDER || (left ? l.to_left : l.to_right) ? o : 0;
}
inline std::set<Id> as(const std::vector<Id> & v) { return {v.begin(), v.end()}; }
inline std::string text(const std::vector<Id> & v)
{
  std::string r;
  for (auto i : v) r += (r.empty() ? "" : " ") + std::to_string(i);
  return "[" + r + "]";
}
/// least cost from a lane to all others: the length of each lane that is left at its end, 10 per lane change
inline std::map<Id, double> costs(const Net & net, Id from, Type t, bool change)
{
  std::map<Id, double> cost;
  if (!passable(net, from, t)) return cost;
  cost[from] = 0;
  std::set<std::pair<double, Id>> open{{0.0, from}};
  while (!open.empty()) {
    const auto [c, id] = *open.begin();
    open.erase(open.begin());
    if (c > cost[id]) continue;
    auto visit = [&, c = c](Id o, double d) {
      if (!cost.count(o) || cost[o] > c + d) cost[o] = c + d, open.insert({c + d, o});
    };
    for (auto o : following(net, id, t)) visit(o, net[id].length);
    if (change)
      for (bool left : {true, false})
        if (const Id o = beside(net, id, t, left)) visit(o, 10);
  }
  return cost;
}
/// how one lane goes over into the next: 'n' next, 'l', 'r', or 'x' not at all
inline char step(const Net & net, Id a, Id b, Type t)
{
  const auto n = following(net, a, t);
  if (std::count(n.begin(), n.end(), b)) return 'n';
  if (beside(net, a, t, true) == b) return 'l';
  if (beside(net, a, t, false) == b) return 'r';
  return 'x';
}
inline Type anyType(vf::Src & s) { return s.pick({Type::VEHICLE_WITH_ROAD_SHOULDER, Type::VEHICLE, Type::VEHICLE_WITH_ROAD_SHOULDER, Type::PEDESTRIAN}); }
inline Id anyLane(vf::Src & s, const Net & net)
{
  std::vector<Id> all;
  for (auto & [id, l] : net.lanes) all.push_back(id);
  return s.pick(all);
}
}  // namespace ways
#endif
