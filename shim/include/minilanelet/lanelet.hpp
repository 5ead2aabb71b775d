// A small stand-in for the parts of lanelet2 and autoware_lanelet2_extension that the simulator uses. Maps are built by harnesses and "loaded" by name.
#ifndef MINILANELET_HPP_
#define MINILANELET_HPP_
#include <Eigen/Dense>
#include <algorithm>
#include <boost/geometry.hpp>
#include <boost/geometry/geometries/point_xy.hpp>
#include <boost/geometry/geometries/polygon.hpp>
#include <boost/optional.hpp>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <variant>
#include <vector>

namespace lanelet
{
using Id = std::int64_t;
using Ids = std::vector<Id>;
constexpr Id InvalId = 0;
template <typename T>
using Optional = boost::optional<T>;
using BasicPoint2d = Eigen::Vector2d;
using BasicPoint3d = Eigen::Vector3d;
using BasicPoints3d = std::vector<BasicPoint3d>;
struct BasicPolygon2d : std::vector<BasicPoint2d>
{
  using std::vector<BasicPoint2d>::vector;
};
struct LaneletError : std::runtime_error { using std::runtime_error::runtime_error; };
struct NoSuchPrimitiveError : LaneletError { using LaneletError::LaneletError; };
struct NoSuchAttributeError : LaneletError { using LaneletError::LaneletError; };
struct InvalidInputError : LaneletError { using LaneletError::LaneletError; };
struct FileNotFoundError : LaneletError { using LaneletError::LaneletError; };

class Attribute
{
  std::string value_;

public:
  Attribute() = default;
  Attribute(const std::string & v) : value_(v) {}
  Attribute(const char * v) : value_(v) {}
  Attribute(bool v) : value_(v ? "true" : "false") {}
  Attribute(Id v) : value_(std::to_string(v)) {}
  Attribute(int v) : value_(std::to_string(v)) {}
  Attribute(double v) { std::ostringstream s; s.precision(17); s << v; value_ = s.str(); }
  const std::string & value() const { return value_; }
  Optional<Id> asId() const { try { return Id(std::stoll(value_)); } catch (...) { return {}; } }
  Optional<int> asInt() const { try { return std::stoi(value_); } catch (...) { return {}; } }
  Optional<double> asDouble() const { try { return std::stod(value_); } catch (...) { return {}; } }
  Optional<bool> asBool() const { return value_ == "yes" || value_ == "true" || value_ == "1" ? Optional<bool>(true) : value_ == "no" || value_ == "false" || value_ == "0" ? Optional<bool>(false) : Optional<bool>(); }
  bool operator==(const Attribute & o) const { return value_ == o.value_; }
  bool operator!=(const Attribute & o) const { return value_ != o.value_; }
};
enum class AttributeName { Type, Subtype, OneWay, ParticipantVehicle, ParticipantPedestrian, SpeedLimit, Location, Dynamic };
inline const char * name_of(AttributeName n)
{
  switch (n) {
    case AttributeName::Type: return "type";
    case AttributeName::Subtype: return "subtype";
    case AttributeName::OneWay: return "one_way";
    case AttributeName::ParticipantVehicle: return "participant:vehicle";
    case AttributeName::ParticipantPedestrian: return "participant:pedestrian";
    case AttributeName::SpeedLimit: return "speed_limit";
    case AttributeName::Location: return "location";
    default: return "dynamic";
  }
}
struct AttributeValueString
{
  static constexpr char Road[] = "road", Crosswalk[] = "crosswalk", Walkway[] = "walkway", Highway[] = "highway", PlayStreet[] = "play_street", BicycleLane[] = "bicycle_lane", EmergencyLane[] = "emergency_lane",
                        Exit[] = "exit", Stairs[] = "stairs", SharedWalkway[] = "shared_walkway", Urban[] = "urban", Nonurban[] = "nonurban";
};
struct Participants
{
  static constexpr const char Vehicle[] = "vehicle", VehicleEmergency[] = "vehicle:emergency", Bicycle[] = "bicycle", Pedestrian[] = "pedestrian";
};
struct Locations
{
  static constexpr char Germany[] = "de";
};
struct RoleNameString
{
  static constexpr char Refers[] = "refers", RefLine[] = "ref_line", RightOfWay[] = "right_of_way", Yield[] = "yield", Cancels[] = "cancels", CancelLine[] = "cancel_line";
};
enum class RoleName { Refers, RefLine, RightOfWay, Yield, Cancels, CancelLine };
inline std::string role_name(RoleName r)
{
  switch (r) {
    case RoleName::Refers: return "refers";
    case RoleName::RefLine: return "ref_line";
    case RoleName::RightOfWay: return "right_of_way";
    case RoleName::Yield: return "yield";
    case RoleName::Cancels: return "cancels";
    default: return "cancel_line";
  }
}
using AttributeMap = std::map<std::string, Attribute>;

struct PrimitiveData
{
  Id id = InvalId;
  AttributeMap attributes;
};
template <typename Data>
class Primitive
{
protected:
  std::shared_ptr<Data> data_;

public:
  Primitive() : data_(std::make_shared<Data>()) {}
  explicit Primitive(std::shared_ptr<Data> d) : data_(std::move(d)) {}
  Id id() const { return data_->id; }
  const AttributeMap & attributes() const { return data_->attributes; }
  AttributeMap & attributes() { return data_->attributes; }
  void setAttribute(const std::string & name, const Attribute & v) { data_->attributes[name] = v; }
  void setAttribute(AttributeName name, const Attribute & v) { setAttribute(name_of(name), v); }
  bool hasAttribute(const std::string & name) const { return data_->attributes.count(name) != 0; }
  bool hasAttribute(AttributeName name) const { return hasAttribute(name_of(name)); }
  const Attribute & attribute(const std::string & name) const
  {
    const auto i = data_->attributes.find(name);
    if (i == data_->attributes.end()) throw NoSuchAttributeError("Could not find an attribute with name " + name);
    return i->second;
  }
  const Attribute & attribute(AttributeName name) const { return attribute(name_of(name)); }
  std::string attributeOr(const std::string & name, const char * otherwise) const { return hasAttribute(name) ? attribute(name).value() : otherwise; }
  std::string attributeOr(const std::string & name, const std::string & otherwise) const { return hasAttribute(name) ? attribute(name).value() : otherwise; }
  std::string attributeOr(AttributeName name, const char * otherwise) const { return attributeOr(std::string(name_of(name)), otherwise); }
  double attributeOr(const std::string & name, double otherwise) const { return hasAttribute(name) && attribute(name).asDouble() ? *attribute(name).asDouble() : otherwise; }
  const std::shared_ptr<Data> & constData() const { return data_; }
};

struct PointData : PrimitiveData
{
  BasicPoint3d point = BasicPoint3d::Zero();
};
class Point3d : public Primitive<PointData>
{
public:
  Point3d() = default;
  Point3d(Id id, double x, double y, double z = 0) { data_->id = id, data_->point = {x, y, z}; }
  Point3d(Id id, const BasicPoint3d & p) { data_->id = id, data_->point = p; }
  double x() const { return data_->point.x(); }
  double y() const { return data_->point.y(); }
  double z() const { return data_->point.z(); }
  const BasicPoint3d & basicPoint() const { return data_->point; }
  operator BasicPoint3d() const { return data_->point; }
  bool operator==(const Point3d & o) const { return data_ == o.data_; }
};
using ConstPoint3d = Point3d;

struct LineStringData : PrimitiveData
{
  std::vector<Point3d> points;
};
class LineString3d : public Primitive<LineStringData>
{
  bool inverted_ = false;

public:
  class const_iterator
  {
    const LineString3d * line;
    long i;

  public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = Point3d;
    using difference_type = long;
    using pointer = const Point3d *;
    using reference = const Point3d &;
    const_iterator(const LineString3d * l = nullptr, long n = 0) : line(l), i(n) {}
    reference operator*() const { return (*line)[static_cast<std::size_t>(i)]; }
    pointer operator->() const { return &**this; }
    const_iterator & operator++() { ++i; return *this; }
    const_iterator operator++(int) { auto t = *this; ++i; return t; }
    const_iterator & operator--() { --i; return *this; }
    const_iterator operator+(long n) const { return {line, i + n}; }
    const_iterator operator-(long n) const { return {line, i - n}; }
    long operator-(const const_iterator & o) const { return i - o.i; }
    bool operator==(const const_iterator & o) const { return i == o.i; }
    bool operator!=(const const_iterator & o) const { return i != o.i; }
    bool operator<(const const_iterator & o) const { return i < o.i; }
  };
  using iterator = const_iterator;
  using value_type = Point3d;
  LineString3d() = default;
  explicit LineString3d(Id id) { data_->id = id; }
  LineString3d(Id id, const std::vector<Point3d> & p) { data_->id = id, data_->points = p; }
  std::size_t size() const { return data_->points.size(); }
  bool empty() const { return data_->points.empty(); }
  const Point3d & operator[](std::size_t i) const { return data_->points[inverted_ ? size() - 1 - i : i]; }
  const Point3d & front() const { return (*this)[0]; }
  const Point3d & back() const { return (*this)[size() - 1]; }
  const_iterator begin() const { return {this, 0}; }
  const_iterator end() const { return {this, static_cast<long>(size())}; }
  void push_back(const Point3d & p) { if (inverted_) data_->points.insert(data_->points.begin(), p); else data_->points.push_back(p); }
  bool inverted() const { return inverted_; }
  LineString3d invert() const { auto l = *this; l.inverted_ = !inverted_; return l; }
  bool operator==(const LineString3d & o) const { return data_ == o.data_ && inverted_ == o.inverted_; }
  bool operator!=(const LineString3d & o) const { return !(*this == o); }
  const LineString3d & basicLineString() const { return *this; }
};
using ConstLineString3d = LineString3d;
using LineStrings3d = std::vector<LineString3d>;
using ConstLineStrings3d = LineStrings3d;
using Polygon3d = LineString3d;
using ConstPolygon3d = LineString3d;
using ConstPolygons3d = std::vector<ConstPolygon3d>;
class LineStringOrPolygon3d : public LineString3d
{
  bool polygon_ = false;

public:
  LineStringOrPolygon3d(const LineString3d & l, bool polygon = false) : LineString3d(l), polygon_(polygon) {}
  bool isLineString() const { return !polygon_; }
  bool isPolygon() const { return polygon_; }
};
using ConstLineStringOrPolygon3d = LineStringOrPolygon3d;
using LineStringsOrPolygons3d = std::vector<LineStringOrPolygon3d>;

class Lanelet;
using Lanelets = std::vector<Lanelet>;
using ConstLanelet = Lanelet;
using ConstLanelets = Lanelets;
class RegulatoryElement
{
public:
  Id id_ = InvalId;
  AttributeMap attributes_;
  std::map<std::string, LineStringsOrPolygons3d> lines;
  std::map<std::string, std::vector<Lanelet>> lanelets;
  using Ptr = std::shared_ptr<RegulatoryElement>;
  using ConstPtr = std::shared_ptr<const RegulatoryElement>;
  virtual ~RegulatoryElement() = default;
  Id id() const { return id_; }
  bool hasAttribute(const std::string & n) const { return attributes_.count(n) != 0; }
  bool hasAttribute(AttributeName n) const { return hasAttribute(name_of(n)); }
  const Attribute & attribute(const std::string & n) const
  {
    const auto i = attributes_.find(n);
    if (i == attributes_.end()) throw NoSuchAttributeError("Could not find an attribute with name " + n);
    return i->second;
  }
  const Attribute & attribute(AttributeName n) const { return attribute(name_of(n)); }
  const AttributeMap & attributes() const { return attributes_; }
  template <typename T>
  std::vector<T> getParameters(const std::string & role) const
  {
    std::vector<T> out;
    if constexpr (std::is_same_v<T, LineString3d>) {
      const auto i = lines.find(role);
      if (i != lines.end()) for (const auto & l : i->second) if (l.isLineString()) out.push_back(l);
    }
    return out;
  }
  template <typename T>
  std::vector<T> getParameters(RoleName role) const { return getParameters<T>(role_name(role)); }
};
using RegulatoryElementPtr = RegulatoryElement::Ptr;
using RegulatoryElementConstPtr = RegulatoryElement::ConstPtr;

struct LaneletData : PrimitiveData
{
  LineString3d left, right;
  mutable std::shared_ptr<LineString3d> center;
  bool custom = false;
  std::vector<RegulatoryElementPtr> regulatory;
};
class Lanelet : public Primitive<LaneletData>
{
  bool inverted_ = false;

public:
  Lanelet() = default;
  Lanelet(Id id, const LineString3d & left, const LineString3d & right) { data_->id = id, data_->left = left, data_->right = right; }
  bool inverted() const { return inverted_; }
  Lanelet invert() const { auto l = *this; l.inverted_ = !inverted_; return l; }
  LineString3d leftBound() const { return inverted_ ? data_->right.invert() : data_->left; }
  LineString3d rightBound() const { return inverted_ ? data_->left.invert() : data_->right; }
  LineString3d leftBound3d() const { return leftBound(); }
  LineString3d rightBound3d() const { return rightBound(); }
  // the left bound, then the right bound backwards
  LineString3d polygon3d() const
  {
    LineString3d p;
    for (const auto & q : leftBound()) p.push_back(q);
    for (const auto & q : rightBound().invert()) p.push_back(q);
    return p;
  }
  LineString3d centerline() const
  {
    if (!data_->center) {
      data_->center = std::make_shared<LineString3d>();
      const auto n = std::min(data_->left.size(), data_->right.size());
      for (std::size_t i = 0; i < n; ++i) data_->center->push_back(Point3d(InvalId, (data_->left[i].basicPoint() + data_->right[i].basicPoint()) / 2));
    }
    return inverted_ ? data_->center->invert() : *data_->center;
  }
  void setCenterline(const LineString3d & c) const { data_->center = std::make_shared<LineString3d>(inverted_ ? c.invert() : c), data_->custom = true; }
  bool hasCustomCenterline() const { return data_->custom; }
  void addRegulatoryElement(const RegulatoryElementPtr & e) const { data_->regulatory.push_back(e); }
  const std::vector<RegulatoryElementPtr> & regulatoryElements() const { return data_->regulatory; }
  template <typename T>
  std::vector<std::shared_ptr<T>> regulatoryElementsAs() const
  {
    std::vector<std::shared_ptr<T>> out;
    for (const auto & e : data_->regulatory)
      if (auto p = std::dynamic_pointer_cast<T>(e)) out.push_back(p);
    return out;
  }
  bool operator==(const Lanelet & o) const { return data_ == o.data_ && inverted_ == o.inverted_; }
  bool operator!=(const Lanelet & o) const { return !(*this == o); }
};
class LaneletSequence : public std::vector<Lanelet>
{
public:
  using std::vector<Lanelet>::vector;
};

class TrafficSign : public RegulatoryElement
{
public:
  using Ptr = std::shared_ptr<TrafficSign>;
  std::string type() const
  {
    const auto i = lines.find("refers");
    return i != lines.end() && !i->second.empty() ? i->second.front().attributeOr("subtype", "") : "";
  }
  ConstLineStrings3d refLines() const { return getParameters<LineString3d>("ref_line"); }
};
class TrafficLight : public RegulatoryElement
{
public:
  using Ptr = std::shared_ptr<TrafficLight>;
  LineStringsOrPolygons3d trafficLights() const
  {
    const auto i = lines.find("refers");
    return i == lines.end() ? LineStringsOrPolygons3d{} : i->second;
  }
  Optional<LineString3d> stopLine() const
  {
    const auto l = getParameters<LineString3d>("ref_line");
    return l.empty() ? Optional<LineString3d>() : Optional<LineString3d>(l.front());
  }
};
class RightOfWay : public RegulatoryElement
{
public:
  using Ptr = std::shared_ptr<RightOfWay>;
  std::vector<Lanelet> rightOfWayLanelets() const { const auto i = lanelets.find("right_of_way"); return i == lanelets.end() ? std::vector<Lanelet>{} : i->second; }
  std::vector<Lanelet> yieldLanelets() const { const auto i = lanelets.find("yield"); return i == lanelets.end() ? std::vector<Lanelet>{} : i->second; }
};
namespace autoware
{
class AutowareTrafficLight : public TrafficLight
{
public:
  using Ptr = std::shared_ptr<AutowareTrafficLight>;
  LineStrings3d lightBulbs() const { return getParameters<LineString3d>("light_bulbs"); }
};
class DetectionArea : public RegulatoryElement
{
};
}  // namespace autoware
using AutowareTrafficLightConstPtr = std::shared_ptr<const autoware::AutowareTrafficLight>;
using DetectionAreaConstPtr = std::shared_ptr<const autoware::DetectionArea>;

template <typename T>
class Layer
{
  std::map<Id, T> content_;

public:
  class iterator
  {
    typename std::map<Id, T>::const_iterator i;

  public:
    explicit iterator(typename std::map<Id, T>::const_iterator it) : i(it) {}
    T & operator*() const { return const_cast<T &>(i->second); }
    T * operator->() const { return &**this; }
    iterator & operator++() { ++i; return *this; }
    bool operator!=(const iterator & o) const { return i != o.i; }
    bool operator==(const iterator & o) const { return i == o.i; }
  };
  void add(Id id, const T & t) { content_[id] = t; }
  bool exists(Id id) const { return content_.count(id) != 0; }
  T get(Id id) const
  {
    const auto i = content_.find(id);
    if (i == content_.end()) throw NoSuchPrimitiveError("Failed to get element with id " + std::to_string(id));
    return i->second;
  }
  std::size_t size() const { return content_.size(); }
  bool empty() const { return content_.empty(); }
  iterator begin() const { return iterator(content_.begin()); }
  iterator end() const { return iterator(content_.end()); }
};
class LaneletMap
{
public:
  Layer<Lanelet> laneletLayer;
  Layer<LineString3d> lineStringLayer;
  Layer<RegulatoryElementPtr> regulatoryElementLayer;
  void add(const LineString3d & l) { lineStringLayer.add(l.id(), l); }
  void add(const Lanelet & l)
  {
    laneletLayer.add(l.id(), l);
    add(l.constData()->left), add(l.constData()->right);
    for (const auto & e : l.regulatoryElements()) add(e);
  }
  void add(const RegulatoryElementPtr & e)
  {
    regulatoryElementLayer.add(e->id(), e);
    for (const auto & [role, ls] : e->lines) for (const auto & l : ls) add(static_cast<const LineString3d &>(l));
  }
  template <class Archive>
  void serialize(Archive &, const unsigned) {}
};
using LaneletMapPtr = std::shared_ptr<LaneletMap>;
using LaneletMapConstPtr = std::shared_ptr<const LaneletMap>;
using LaneletMapUPtr = std::unique_ptr<LaneletMap>;

namespace utils
{
inline Id & next_id() { static Id id = 1'000'000'000; return id; }
inline Id getId() { return next_id()++; }
template <typename C, typename P>
bool anyOf(const C & c, P p) { return std::any_of(std::begin(c), std::end(c), p); }
}  // namespace utils

namespace geometry
{
using BoostPoint = boost::geometry::model::d2::point_xy<double>;
using BoostRing = boost::geometry::model::ring<BoostPoint>;
using BoostPolygon = boost::geometry::model::polygon<BoostPoint>;
inline BoostPolygon polygon(const Lanelet & l)
{
  BoostPolygon p;
  for (const auto & q : l.polygon3d()) boost::geometry::append(p, BoostPoint(q.x(), q.y()));
  boost::geometry::correct(p);
  return p;
}
inline double length(const LineString3d & l)
{
  double sum = 0;
  for (std::size_t i = 1; i < l.size(); ++i) sum += (l[i].basicPoint() - l[i - 1].basicPoint()).norm();
  return sum;
}
inline double length2d(const LineString3d & l)
{
  double sum = 0;
  for (std::size_t i = 1; i < l.size(); ++i) sum += (l[i].basicPoint() - l[i - 1].basicPoint()).head<2>().norm();
  return sum;
}
inline double distance(const BasicPoint3d & a, const BasicPoint3d & b) { return (a - b).norm(); }
inline double distance3d(const BasicPoint3d & a, const BasicPoint3d & b) { return (a - b).norm(); }
inline bool inside(const Lanelet & l, const BasicPoint2d & p) { return boost::geometry::covered_by(BoostPoint(p.x(), p.y()), polygon(l)); }
inline double distance2d(const Lanelet & l, const BasicPoint2d & p) { return boost::geometry::distance(BoostPoint(p.x(), p.y()), polygon(l)); }
inline std::vector<std::pair<double, Lanelet>> findNearest(const Layer<Lanelet> & layer, const BasicPoint2d & p, unsigned count)
{
  std::vector<std::pair<double, Lanelet>> out;
  for (const auto & l : layer) out.emplace_back(distance2d(l, p), l);
  std::stable_sort(out.begin(), out.end(), [](const auto & a, const auto & b) { return a.first < b.first; });
  if (out.size() > count) out.resize(count);
  return out;
}
inline double approximatedLength2d(const Lanelet & l) { return length2d(l.centerline()); }
inline bool overlaps2d(const Lanelet & a, const Lanelet & b)
{
  // sides that lie on each other can make the intersection fail, so it is tried again a few micrometres aside
  const auto area = [&](double dx, double dy) {
    BoostPolygon p = polygon(a), moved;
    for (const auto & q : p.outer()) boost::geometry::append(moved, BoostPoint(q.x() + dx, q.y() + dy));
    boost::geometry::correct(moved);
    std::vector<BoostPolygon> out;
    boost::geometry::intersection(moved, polygon(b), out);
    double sum = 0;
    for (const auto & o : out) sum += boost::geometry::area(o);
    return sum;
  };
  return area(0, 0) > 1e-6 || area(3e-6, 7e-6) > 5e-3 || area(-6e-6, 2e-6) > 5e-3;
}
// do the lanelets overlap and is their height nowhere more than the tolerance apart where they do (roughly: at their closest points)
inline bool overlaps3d(const Lanelet & a, const Lanelet & b, double tolerance)
{
  if (!overlaps2d(a, b)) return false;
  double best = 1e300, dz = 0;
  for (const auto & p : a.centerline())
    for (const auto & q : b.centerline()) {
      const double d = (p.basicPoint() - q.basicPoint()).head<2>().norm();
      if (d < best) best = d, dz = std::abs(p.z() - q.z());
    }
  return dz < tolerance;
}
}  // namespace geometry

struct Velocity
{
  double mps = 0;
};
namespace units
{
struct KmHQuantity
{
  double v;
  explicit KmHQuantity(const Velocity & x) : v(x.mps * 3.6) {}
  explicit KmHQuantity(double kmh) : v(kmh) {}
  double value() const { return v; }
};
}  // namespace units

namespace traffic_rules
{
enum class LaneChangeType { ToRight, ToLeft, Both, None };
struct SpeedLimitInformation
{
  Velocity speedLimit;
  bool isMandatory = true;
};
class TrafficRules
{
public:
  virtual ~TrafficRules() = default;
  virtual bool canPass(const Lanelet &) const = 0;
  virtual bool canChangeLane(const Lanelet &, const Lanelet &) const = 0;
  virtual SpeedLimitInformation speedLimit(const Lanelet &) const = 0;
  std::string participant_name, location_name;
  const std::string & participant() const { return participant_name; }
  const std::string & location() const { return location_name; }
};
using TrafficRulesPtr = std::shared_ptr<TrafficRules>;
using TrafficRulesUPtr = std::unique_ptr<TrafficRules>;
struct Configuration
{
  std::string participant, location;
};
class GenericTrafficRules : public TrafficRules
{
public:
  explicit GenericTrafficRules(Configuration c = {}) { participant_name = c.participant, location_name = c.location; }
  bool canPass(const Lanelet & l) const override
  {
    const auto key = "participant:" + participant_name;
    if (l.hasAttribute(key)) return l.attribute(key).asBool().value_or(false);
    const auto byType = canPass(l.attributeOr("subtype", ""), l.attributeOr("location", ""));
    return byType && *byType;
  }
  bool canChangeLane(const Lanelet & from, const Lanelet & to) const override
  {
    if (!canPass(from) || !canPass(to)) return false;
    if (from.leftBound() == to.rightBound()) {
      const auto t = laneChangeType(from.leftBound(), false);
      return t == LaneChangeType::Both || t == LaneChangeType::ToLeft;
    }
    if (from.rightBound() == to.leftBound()) {
      const auto t = laneChangeType(from.rightBound(), false);
      return t == LaneChangeType::Both || t == LaneChangeType::ToRight;
    }
    return false;
  }
  SpeedLimitInformation speedLimit(const Lanelet & l) const override
  {
    const double otherwise = participant_name == "pedestrian" ? 10 : 50;
    return {{l.attributeOr("speed_limit", otherwise) / 3.6}, true};
  }

protected:
  virtual Optional<bool> canPass(const std::string & type, const std::string & /*location*/) const
  {
    static const std::map<std::string, std::vector<std::string>> participants{
      {"", {"vehicle"}}, {"road", {"vehicle", "bicycle"}}, {"highway", {"vehicle"}}, {"bicycle_lane", {"bicycle"}}, {"play_street", {"pedestrian", "bicycle", "vehicle"}},
      {"emergency_lane", {"vehicle:emergency"}}, {"exit", {"pedestrian", "bicycle", "vehicle"}}, {"walkway", {"pedestrian"}}, {"crosswalk", {"pedestrian"}}, {"stairs", {"pedestrian"}},
      {"shared_walkway", {"pedestrian", "bicycle"}}};
    const auto i = participants.find(type);
    if (i == participants.end()) return {};
    return utils::anyOf(i->second, [&](const auto & p) { return participant_name.compare(0, p.size(), p) == 0; });
  }
  virtual LaneChangeType laneChangeType(const ConstLineString3d & line, bool /*virtualIsPassable*/) const
  {
    if (line.hasAttribute("lane_change")) return line.attribute("lane_change").asBool().value_or(false) ? LaneChangeType::Both : LaneChangeType::None;
    const auto type = line.attributeOr("type", ""), subtype = line.attributeOr("subtype", "");
    if (type != "line_thin" && type != "line_thick") return LaneChangeType::None;
    if (subtype == "dashed") return LaneChangeType::Both;
    if (subtype == "dashed_solid") return line.inverted() ? LaneChangeType::ToLeft : LaneChangeType::ToRight;
    if (subtype == "solid_dashed") return line.inverted() ? LaneChangeType::ToRight : LaneChangeType::ToLeft;
    return LaneChangeType::None;
  }
};
class GermanVehicle : public GenericTrafficRules
{
public:
  using GenericTrafficRules::GenericTrafficRules;
};
class GermanPedestrian : public GenericTrafficRules
{
public:
  using GenericTrafficRules::GenericTrafficRules;
};
class TrafficRulesFactory
{
public:
  using Make = std::function<TrafficRulesUPtr(const Configuration &)>;
  static std::map<std::pair<std::string, std::string>, Make> & registry()
  {
    static std::map<std::pair<std::string, std::string>, Make> r{
      {{"de", "vehicle"}, [](const Configuration & c) { return TrafficRulesUPtr(new GermanVehicle(c)); }},
      {{"de", "pedestrian"}, [](const Configuration & c) { return TrafficRulesUPtr(new GermanPedestrian(c)); }}};
    return r;
  }
  static TrafficRulesUPtr create(const std::string & location, const std::string & participant)
  {
    const auto i = registry().find({location, participant});
    if (i == registry().end()) throw InvalidInputError("No matching traffic rules found for location " + location + ", participant " + participant);
    return i->second(Configuration{participant, location});
  }
};
template <typename T>
struct RegisterTrafficRules
{
  RegisterTrafficRules(const std::string & location, const std::string & participant)
  {
    TrafficRulesFactory::registry()[{location, participant}] = [](const Configuration & c) { return TrafficRulesUPtr(new T(c)); };
  }
};
}  // namespace traffic_rules

namespace routing
{
using RoutingCostId = std::uint16_t;
class RoutingCost
{
public:
  virtual ~RoutingCost() = default;
  double lane_change_cost = 10, min_lane_change_length = 0;
};
using RoutingCostPtr = std::shared_ptr<RoutingCost>;
using RoutingCostPtrs = std::vector<RoutingCostPtr>;
class RoutingCostDistance : public RoutingCost
{
public:
  explicit RoutingCostDistance(double laneChangeCost, double minLaneChangeLength = 0) { lane_change_cost = laneChangeCost, min_lane_change_length = minLaneChangeLength; }
};
using LaneletPath = LaneletSequence;
class Route
{
public:
  LaneletPath path;
  const LaneletPath & shortestPath() const { return path; }
};
class RoutingGraph;
using RoutingGraphConstPtr = std::shared_ptr<const RoutingGraph>;
using RoutingGraphPtr = std::shared_ptr<RoutingGraph>;
using RoutingGraphUPtr = std::unique_ptr<RoutingGraph>;
class RoutingGraph
{
public:
  struct Node
  {
    Lanelet lanelet;
    std::vector<Id> next, previous;
    Optional<Id> left, right, adjacent_left, adjacent_right;
    double length = 0;
  };
  std::map<Id, Node> nodes;
  double lane_change_cost = 10;
  static RoutingGraphUPtr build(const LaneletMap & map, const traffic_rules::TrafficRules & rules, const RoutingCostPtrs & costs = {})
  {
    auto g = std::make_unique<RoutingGraph>();
    if (!costs.empty()) g->lane_change_cost = costs.front()->lane_change_cost;
    for (const auto & l : map.laneletLayer)
      if (rules.canPass(l)) g->nodes[l.id()].lanelet = l;
    for (auto & [id, n] : g->nodes) n.length = geometry::approximatedLength2d(n.lanelet);
    for (auto & [id, n] : g->nodes)
      for (auto & [other, m] : g->nodes) {
        if (id == other) continue;
        const auto l = n.lanelet.leftBound(), r = n.lanelet.rightBound(), ol = m.lanelet.leftBound(), orr = m.lanelet.rightBound();
        if (l.back() == ol.front() && r.back() == orr.front()) n.next.push_back(other), m.previous.push_back(id);
        else if (l == orr) (rules.canChangeLane(n.lanelet, m.lanelet) ? n.left : n.adjacent_left) = other;
        else if (r == ol) (rules.canChangeLane(n.lanelet, m.lanelet) ? n.right : n.adjacent_right) = other;
      }
    return g;
  }
  const Node * node(const Lanelet & l) const
  {
    const auto i = nodes.find(l.id());
    return i == nodes.end() || l.inverted() ? nullptr : &i->second;
  }
  Lanelets resolve(const std::vector<Id> & ids) const
  {
    Lanelets out;
    for (const auto i : ids) out.push_back(nodes.at(i).lanelet);
    return out;
  }
  Lanelets following(const Lanelet & l, bool = false) const { const auto n = node(l); return n ? resolve(n->next) : Lanelets{}; }
  Lanelets previous(const Lanelet & l, bool = false) const { const auto n = node(l); return n ? resolve(n->previous) : Lanelets{}; }
  Optional<Lanelet> left(const Lanelet & l) const { const auto n = node(l); return n && n->left ? Optional<Lanelet>(nodes.at(*n->left).lanelet) : Optional<Lanelet>(); }
  Optional<Lanelet> right(const Lanelet & l) const { const auto n = node(l); return n && n->right ? Optional<Lanelet>(nodes.at(*n->right).lanelet) : Optional<Lanelet>(); }
  Optional<Lanelet> adjacentLeft(const Lanelet & l) const { const auto n = node(l); return n && n->adjacent_left ? Optional<Lanelet>(nodes.at(*n->adjacent_left).lanelet) : Optional<Lanelet>(); }
  Optional<Lanelet> adjacentRight(const Lanelet & l) const { const auto n = node(l); return n && n->adjacent_right ? Optional<Lanelet>(nodes.at(*n->adjacent_right).lanelet) : Optional<Lanelet>(); }
  Lanelets lefts(const Lanelet & l) const { Lanelets out; for (auto x = left(l); x && out.size() < nodes.size(); x = left(*x)) out.push_back(*x); return out; }
  Lanelets rights(const Lanelet & l) const { Lanelets out; for (auto x = right(l); x && out.size() < nodes.size(); x = right(*x)) out.push_back(*x); return out; }
  // all lanelets beside the lanelet that can be reached by lane changes, from left to right, itself included
  Lanelets besides(const Lanelet & l) const
  {
    auto out = lefts(l);
    std::reverse(out.begin(), out.end());
    out.push_back(l);
    const auto r = rights(l);
    out.insert(out.end(), r.begin(), r.end());
    return out;
  }
  Lanelets conflicting(const Lanelet & l) const
  {
    const auto found = node(l);
    Lanelets out;
    if (!found) return out;
    const auto & n = *found;
    const Id id = l.id();
    for (const auto & [other, m] : nodes) {
      if (id == other) continue;
      const auto has = [](const std::vector<Id> & v, Id i) { return std::find(v.begin(), v.end(), i) != v.end(); };
      if (has(n.next, other) || has(n.previous, other) || n.left == other || n.right == other || n.adjacent_left == other || n.adjacent_right == other) continue;
      if (m.left == id || m.right == id || m.adjacent_left == id || m.adjacent_right == id) continue;
      if (geometry::overlaps2d(n.lanelet, m.lanelet)) out.push_back(m.lanelet);
    }
    return out;
  }
  Optional<Route> getRoute(const Lanelet & from, const Lanelet & to, RoutingCostId = 0, bool with_lane_changes = true) const
  {
    if (!node(from) || !node(to)) return {};
    std::map<Id, double> cost{{from.id(), 0}};
    std::map<Id, Id> by;
    std::set<std::pair<double, Id>> open{{0.0, from.id()}};
    while (!open.empty()) {
      const auto [c, id] = *open.begin();
      open.erase(open.begin());
      if (id == to.id()) break;
      const auto & n = nodes.at(id);
      const auto visit = [&, c = c, id = id](Id other, double d) {
        const auto i = cost.find(other);
        if (i != cost.end() && i->second <= c + d) return;
        if (i != cost.end()) open.erase({i->second, other});
        cost[other] = c + d, by[other] = id, open.insert({c + d, other});
      };
      for (const auto i : n.next) visit(i, n.length);
      if (with_lane_changes) {
        if (n.left) visit(*n.left, lane_change_cost);
        if (n.right) visit(*n.right, lane_change_cost);
      }
    }
    if (!cost.count(to.id())) return {};
    Route r;
    for (Id i = to.id();; i = by.at(i)) {
      r.path.insert(r.path.begin(), nodes.at(i).lanelet);
      if (i == from.id()) break;
    }
    return r;
  }
};
class RoutingGraphContainer
{
  std::vector<RoutingGraphConstPtr> graphs_;

public:
  explicit RoutingGraphContainer(std::vector<RoutingGraphConstPtr> g) : graphs_(std::move(g)) {}
  Lanelets conflictingInGraph(const Lanelet & l, std::size_t graph, double height = 0) const
  {
    Lanelets out;
    for (const auto & [id, n] : graphs_.at(graph)->nodes)
      if (id != l.id() && (height > 0 ? geometry::overlaps3d(l, n.lanelet, height) : geometry::overlaps2d(l, n.lanelet))) out.push_back(n.lanelet);
    return out;
  }
};
}  // namespace routing

namespace utils
{
inline double getLaneletLength2d(const Lanelet & l) { return geometry::length2d(l.centerline()); }
inline Lanelets getConflictingLanelets(const routing::RoutingGraphConstPtr & g, const Lanelet & l) { return g->conflicting(l); }
namespace query
{
inline ConstLanelets laneletLayer(const LaneletMapConstPtr & m) { ConstLanelets out; if (m) for (const auto & l : m->laneletLayer) out.push_back(l); return out; }
inline ConstLanelets subtype(const ConstLanelets & ls, const std::string & s) { ConstLanelets out; for (const auto & l : ls) if (l.attributeOr("subtype", "") == s) out.push_back(l); return out; }
inline ConstLanelets roadLanelets(const ConstLanelets & ls) { return subtype(ls, "road"); }
inline ConstLanelets crosswalkLanelets(const ConstLanelets & ls) { return subtype(ls, "crosswalk"); }
inline ConstLanelets walkwayLanelets(const ConstLanelets & ls) { return subtype(ls, "walkway"); }
template <typename T>
std::vector<std::shared_ptr<const T>> elements(const ConstLanelets & ls)
{
  std::vector<std::shared_ptr<const T>> out;
  for (const auto & l : ls)
    for (const auto & e : l.regulatoryElementsAs<const T>())
      if (std::find(out.begin(), out.end(), e) == out.end()) out.push_back(e);
  return out;
}
inline std::vector<AutowareTrafficLightConstPtr> autowareTrafficLights(const ConstLanelets & ls) { return elements<autoware::AutowareTrafficLight>(ls); }
inline std::vector<DetectionAreaConstPtr> detectionAreas(const ConstLanelets & ls) { return elements<autoware::DetectionArea>(ls); }
inline ConstLineStrings3d stopLinesLanelets(const ConstLanelets &) { return {}; }
inline ConstLineStrings3d getAllParkingSpaces(const LaneletMapConstPtr &) { return {}; }
inline ConstPolygons3d getAllParkingLots(const LaneletMapConstPtr &) { return {}; }
}  // namespace query
}  // namespace utils

namespace matching
{
using Hull2d = BasicPolygon2d;
struct Object2d
{
  Id objectId = InvalId;
  Eigen::Isometry2d pose = Eigen::Isometry2d::Identity();
  Hull2d absoluteHull;
};
struct LaneletMatch
{
  Lanelet lanelet;
  double distance = 0;
};
// every lanelet in both directions whose area is within the distance of the object's hull, nearest first
inline std::vector<LaneletMatch> getDeterministicMatches(const LaneletMap & map, const Object2d & object, double max_distance)
{
  std::vector<LaneletMatch> out;
  boost::geometry::model::linestring<geometry::BoostPoint> line;
  geometry::BoostPolygon hull;
  const auto & points = object.absoluteHull;
  for (const auto & p : points) boost::geometry::append(line, geometry::BoostPoint(p.x(), p.y()));
  if (points.size() > 2) for (const auto & p : points) boost::geometry::append(hull, geometry::BoostPoint(p.x(), p.y()));
  if (points.size() > 2) boost::geometry::correct(hull);
  for (const auto & l : map.laneletLayer) {
    const double d = points.size() > 2 ? boost::geometry::distance(hull, geometry::polygon(l)) : boost::geometry::distance(line, geometry::polygon(l));
    if (d <= max_distance) out.push_back({l, d}), out.push_back({l.invert(), d});
  }
  std::stable_sort(out.begin(), out.end(), [](const auto & a, const auto & b) { return a.distance < b.distance; });
  return out;
}
inline std::vector<LaneletMatch> removeNonRuleCompliantMatches(std::vector<LaneletMatch> m, const traffic_rules::TrafficRulesPtr & rules)
{
  m.erase(std::remove_if(m.begin(), m.end(), [&](const auto & x) { return x.lanelet.inverted() || !rules->canPass(x.lanelet); }), m.end());
  return m;
}
}  // namespace matching

// "loading": a harness registers a builder; the name of the file selects it
using ErrorMessages = std::vector<std::string>;
struct GPSPoint
{
  double lat = 0, lon = 0, ele = 0;
};
struct Origin
{
  GPSPoint position;
  Origin() = default;
  Origin(const GPSPoint & p) : position(p) {}
};
namespace projection
{
struct Projector
{
  virtual ~Projector() = default;
  virtual std::string describe() const = 0;
};
struct MGRSProjector : Projector
{
  std::string describe() const override { return "MGRS"; }
};
struct TransverseMercatorProjector : Projector
{
  Origin origin;
  double scale;
  explicit TransverseMercatorProjector(const Origin & o, double s = 0.9996) : origin(o), scale(s) {}
  std::string describe() const override { std::ostringstream s; s.precision(17); s << "TransverseMercator " << origin.position.lat << " " << origin.position.lon << " " << scale; return s.str(); }
};
}  // namespace projection
}  // namespace lanelet
namespace minilanelet
{
using Builder = std::function<lanelet::LaneletMapPtr(const std::string & path, const std::string & projector, lanelet::ErrorMessages &)>;
inline Builder & builder() { static Builder b; return b; }
}  // namespace minilanelet
namespace lanelet
{
inline LaneletMapPtr load(const std::string & path, const projection::Projector & projector, ErrorMessages * errors = nullptr)
{
  ErrorMessages e;
  auto m = minilanelet::builder() ? minilanelet::builder()(path, projector.describe(), e) : nullptr;
  if (errors) *errors = e;
  return m;
}
}  // namespace lanelet
#endif
