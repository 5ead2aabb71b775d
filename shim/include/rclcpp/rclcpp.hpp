// Minimal in-process stand-in for rclcpp: enough of its interface for the repository's sources to
// compile unmodified and run in one process, deterministically.  Not part of the code under test.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include <builtin_interfaces/msg/duration.hpp>
#include <builtin_interfaces/msg/time.hpp>

enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };

struct rmw_qos_profile_t {};
inline const rmw_qos_profile_t rmw_qos_profile_services_default{};

namespace shim
{
/// virtual "now" used by every shim clock [ns]; harnesses drive it
inline std::int64_t & now_ns()
{
  static std::int64_t t = 1000000000LL;
  return t;
}
inline bool & ros_ok()
{
  static bool v = true;
  return v;
}
inline std::size_t & log_count()
{
  static std::size_t n = 0;
  return n;
}
inline bool & log_echo()
{
  static bool v = std::getenv("SHIM_LOG") != nullptr;
  return v;
}
inline void log(const char * level, const std::string & s)
{
  ++log_count();
  if (log_echo()) std::cerr << "[" << level << "] " << s << std::endl;
}
}  // namespace shim

namespace rcl_interfaces::srv
{
struct ListParameters
{
  struct Request
  {
    static constexpr std::uint64_t DEPTH_RECURSIVE = 0;
  };
};
}  // namespace rcl_interfaces::srv

namespace rclcpp
{
class Logger
{
  std::string name_;

public:
  explicit Logger(const std::string & name = "") : name_(name) {}
  const char * get_name() const { return name_.c_str(); }
};
inline Logger get_logger(const std::string & name) { return Logger(name); }

class Duration
{
  std::int64_t ns_;

public:
  Duration(std::int32_t sec, std::uint32_t nsec) : ns_(std::int64_t(sec) * 1000000000LL + nsec) {}
  explicit Duration(std::chrono::nanoseconds ns) : ns_(ns.count()) {}
  template <typename Rep, typename Period>
  Duration(const std::chrono::duration<Rep, Period> & d) : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & d)
  : ns_(std::int64_t(d.sec) * 1000000000LL + d.nanosec) {}
  static Duration from_seconds(double s)
  {
    return Duration(std::chrono::nanoseconds(static_cast<std::int64_t>(std::llround(s * 1e9))));
  }
  static Duration from_nanoseconds(std::int64_t ns) { return Duration(std::chrono::nanoseconds(ns)); }
  std::int64_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration d;
    auto q = ns_ / 1000000000LL, r = ns_ % 1000000000LL;
    if (r < 0) { r += 1000000000LL; --q; }
    d.sec = static_cast<std::int32_t>(q);
    d.nanosec = static_cast<std::uint32_t>(r);
    return d;
  }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration operator*(double s) const { return from_nanoseconds(static_cast<std::int64_t>(ns_ * s)); }
};

class Time
{
  std::int64_t ns_;
  rcl_clock_type_t type_;

public:
  Time(std::int32_t sec, std::uint32_t nsec, rcl_clock_type_t t = RCL_SYSTEM_TIME)
  : ns_(std::int64_t(sec) * 1000000000LL + nsec), type_(t) {}
  explicit Time(std::int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), type_(t) {}
  Time(const builtin_interfaces::msg::Time & t, rcl_clock_type_t ty = RCL_ROS_TIME)
  : ns_(std::int64_t(t.sec) * 1000000000LL + t.nanosec), type_(ty) {}
  std::int64_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  rcl_clock_type_t get_clock_type() const { return type_; }
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    t.sec = static_cast<std::int32_t>(ns_ / 1000000000LL);
    t.nanosec = static_cast<std::uint32_t>(ns_ % 1000000000LL);
    return t;
  }
  Duration operator-(const Time & o) const { return Duration::from_nanoseconds(ns_ - o.ns_); }
  Time operator-(const Duration & o) const { return Time(ns_ - o.nanoseconds(), type_); }
  Time operator+(const Duration & o) const { return Time(ns_ + o.nanoseconds(), type_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return ns_ != o.ns_; }
};

class Clock
{
  rcl_clock_type_t type_;

public:
  using SharedPtr = std::shared_ptr<Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : type_(t) {}
  Time now() const { return Time(shim::now_ns(), type_); }
  rcl_clock_type_t get_clock_type() const { return type_; }
};

inline bool ok() { return shim::ros_ok(); }
template <typename... Ts>
void init(Ts &&...) { shim::ros_ok() = true; }
template <typename... Ts>
bool shutdown(Ts &&...) { shim::ros_ok() = false; return true; }

struct KeepLast
{
  std::size_t depth;
  explicit KeepLast(std::size_t d) : depth(d) {}
};
struct QoS
{
  std::size_t depth = 1;
  bool is_transient_local = false;
  QoS(std::size_t d) : depth(d) {}
  QoS(const KeepLast & k) : depth(k.depth) {}
  QoS & best_effort() { return *this; }
  QoS & reliable() { return *this; }
  QoS & transient_local() { is_transient_local = true; return *this; }
  QoS & durability_volatile() { return *this; }
};
struct SensorDataQoS : public QoS { SensorDataQoS() : QoS(5) {} };

class ParameterValue
{
  std::any v_;
  template <typename T> static auto norm(const T & x)
  {
    if constexpr (std::is_same_v<T, bool>) return bool(x);
    else if constexpr (std::is_integral_v<T>) return std::int64_t(x);
    else if constexpr (std::is_floating_point_v<T>) return double(x);
    else if constexpr (std::is_convertible_v<T, std::string>) return std::string(x);
    else return x;
  }

public:
  ParameterValue() = default;
  template <typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, ParameterValue>>>
  explicit ParameterValue(const T & x) : v_(norm(x)) {}
  template <typename T> T get() const
  {
    if constexpr (std::is_same_v<T, bool>) return std::any_cast<bool>(v_);
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(std::any_cast<std::int64_t>(v_));
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::any_cast<double>(v_));
    else return std::any_cast<T>(v_);
  }
};
class Parameter
{
  std::string name_;
  ParameterValue value_;

public:
  Parameter() = default;
  template <typename T> Parameter(const std::string & n, const T & v) : name_(n), value_(v) {}
  Parameter(const std::string & n, const ParameterValue & v) : name_(n), value_(v) {}
  const std::string & get_name() const { return name_; }
  template <typename T> T get_value() const { return value_.get<T>(); }
  std::string as_string() const { return value_.get<std::string>(); }
  double as_double() const { return value_.get<double>(); }
  bool as_bool() const { return value_.get<bool>(); }
  std::int64_t as_int() const { return value_.get<std::int64_t>(); }
  const ParameterValue & get_parameter_value() const { return value_; }
};

}  // namespace rclcpp

namespace shim
{
/// parameter overrides visible to every node, by name; harnesses fill it in
inline std::map<std::string, rclcpp::ParameterValue> & parameter_overrides()
{
  static std::map<std::string, rclcpp::ParameterValue> m;
  return m;
}
}  // namespace shim

namespace rclcpp
{
namespace node_interfaces
{
class NodeParametersInterface
{
  std::map<std::string, ParameterValue> values_;
  mutable std::map<std::string, ParameterValue> cache_;

public:
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  bool has_parameter(const std::string & n) const
  {
    return values_.count(n) or shim::parameter_overrides().count(n);
  }
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & v)
  {
    return values_[n] = v;
  }
  Parameter get_parameter(const std::string & n) const
  {
    if (auto i = shim::parameter_overrides().find(n); i != shim::parameter_overrides().end()) {
      return Parameter(n, i->second);
    }
    return Parameter(n, values_.at(n));
  }
  void set(const std::string & n, const ParameterValue & v) { values_[n] = v; }
  void clear() { values_.clear(); }
  std::vector<std::string> names() const
  {
    std::set<std::string> s;
    for (const auto & v : values_) s.insert(v.first);
    for (const auto & v : shim::parameter_overrides()) s.insert(v.first);
    return {s.begin(), s.end()};
  }
};
struct NodeTimersInterface { using SharedPtr = std::shared_ptr<NodeTimersInterface>; };
struct NodeBaseInterface { using SharedPtr = std::shared_ptr<NodeBaseInterface>; };
struct NodeTopicsInterface { using SharedPtr = std::shared_ptr<NodeTopicsInterface>; };
}  // namespace node_interfaces

class NodeOptions
{
public:
  NodeOptions & automatically_declare_parameters_from_overrides(bool) { return *this; }
  NodeOptions & use_global_arguments(bool) { return *this; }
  NodeOptions & allow_undeclared_parameters(bool) { return *this; }
};

template <typename Alloc = std::allocator<void>>
struct PublisherOptionsWithAllocator {};
template <typename Alloc = std::allocator<void>>
struct SubscriptionOptionsWithAllocator {};
using PublisherOptions = PublisherOptionsWithAllocator<>;
using SubscriptionOptions = SubscriptionOptionsWithAllocator<>;
}  // namespace rclcpp

namespace shim
{
/// in-process topic bus: delivery is synchronous; the last `keep` messages are retained
template <typename T>
struct Topic
{
  std::vector<std::pair<int, std::function<void(std::shared_ptr<const T>)>>> callbacks;
  std::deque<std::shared_ptr<const T>> history;
  std::size_t published = 0;
};
template <typename T>
std::map<std::string, Topic<T>> & topics()
{
  static std::map<std::string, Topic<T>> m;
  return m;
}
inline std::size_t & history_depth()
{
  static std::size_t d = 4;
  return d;
}
inline int next_id()
{
  static int i = 0;
  return ++i;
}
}  // namespace shim

namespace rclcpp
{
template <typename T, typename A = std::allocator<void>>
class Publisher
{
  std::string topic_;

public:
  using SharedPtr = std::shared_ptr<Publisher>;
  using ROSMessageType = T;
  explicit Publisher(const std::string & t = "") : topic_(t) {}
  const char * get_topic_name() const { return topic_.c_str(); }
  std::size_t get_subscription_count() const { return shim::topics<T>()[topic_].callbacks.size(); }
  void publish(std::shared_ptr<const T> m)
  {
    auto & t = shim::topics<T>()[topic_];
    ++t.published;
    t.history.push_back(m);
    while (t.history.size() > shim::history_depth()) t.history.pop_front();
    auto callbacks = t.callbacks;
    for (auto & c : callbacks) c.second(m);
  }
  void publish(const T & m) { publish(std::shared_ptr<const T>(std::make_shared<T>(m))); }
  void publish(std::unique_ptr<T> m) { publish(std::shared_ptr<const T>(std::move(m))); }
};

class SubscriptionBase
{
public:
  virtual ~SubscriptionBase() = default;
};
template <typename T, typename A = std::allocator<void>>
class Subscription : public SubscriptionBase
{
  std::string topic_;
  int id_;

public:
  using SharedPtr = std::shared_ptr<Subscription>;
  template <typename F>
  Subscription(const std::string & topic, F f) : topic_(topic), id_(shim::next_id())
  {
    std::function<void(std::shared_ptr<const T>)> g;
    if constexpr (std::is_invocable_v<F, std::shared_ptr<const T>>) {
      g = [f](std::shared_ptr<const T> m) mutable { f(m); };
    } else if constexpr (std::is_invocable_v<F, std::shared_ptr<T>>) {
      g = [f](std::shared_ptr<const T> m) mutable { f(std::const_pointer_cast<T>(m)); };
    } else if constexpr (std::is_invocable_v<F, std::unique_ptr<T>>) {
      g = [f](std::shared_ptr<const T> m) mutable { f(std::make_unique<T>(*m)); };
    } else {
      g = [f](std::shared_ptr<const T> m) mutable { f(*m); };
    }
    shim::topics<T>()[topic_].callbacks.emplace_back(id_, g);
  }
  ~Subscription() override
  {
    auto & c = shim::topics<T>()[topic_].callbacks;
    c.erase(std::remove_if(c.begin(), c.end(), [&](auto & p) { return p.first == id_; }), c.end());
  }
};
}  // namespace rclcpp

namespace shim
{
/// service handlers by name; harnesses (or create_service) fill it in
template <typename S>
std::map<std::string, std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)>> &
services()
{
  static std::map<std::string, std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)>> m;
  return m;
}
}  // namespace shim

namespace rclcpp
{
template <typename S>
class Service
{
public:
  using SharedPtr = std::shared_ptr<Service>;
};
template <typename S>
class Client
{
  std::string name_;

public:
  using SharedPtr = std::shared_ptr<Client>;
  explicit Client(const std::string & n) : name_(n) {}
  bool service_is_ready() const { return shim::services<S>().count(name_); }
  template <typename D> bool wait_for_service(D) const { return service_is_ready(); }
  std::shared_future<std::shared_ptr<typename S::Response>> async_send_request(
    std::shared_ptr<typename S::Request> request)
  {
    std::promise<std::shared_ptr<typename S::Response>> p;
    auto response = std::make_shared<typename S::Response>();
    shim::services<S>().at(name_)(request, response);
    p.set_value(response);
    return p.get_future().share();
  }
};

class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  std::function<void()> callback;
  std::chrono::nanoseconds period{0};
  bool canceled = false;
  void cancel() { canceled = true; }
  void reset() { canceled = false; }
  bool is_canceled() const { return canceled; }
  /// what the harness wants the remaining time to be
  std::chrono::nanoseconds remaining{0};
  std::chrono::nanoseconds time_until_trigger() const { return remaining; }
  void execute_callback() { if (callback) callback(); }
};
}  // namespace rclcpp

namespace shim
{
inline std::vector<std::weak_ptr<rclcpp::TimerBase>> & timers()
{
  static std::vector<std::weak_ptr<rclcpp::TimerBase>> v;
  return v;
}
/// fire every live, uncancelled timer once
inline std::size_t fire_timers()
{
  std::size_t n = 0;
  auto v = timers();
  for (auto & w : v) {
    if (auto t = w.lock(); t and not t->canceled) {
      t->execute_callback();
      ++n;
    }
  }
  auto & all = timers();
  all.erase(std::remove_if(all.begin(), all.end(), [](auto & w) { return w.expired(); }), all.end());
  return n;
}
}  // namespace shim

namespace rclcpp
{
template <typename C>
class GenericRate
{
  std::chrono::nanoseconds p_;

public:
  template <typename D>
  explicit GenericRate(D d) : p_([&] {
      if constexpr (std::is_arithmetic_v<D>) return std::chrono::nanoseconds(static_cast<std::int64_t>(1e9 / d));
      else return std::chrono::duration_cast<std::chrono::nanoseconds>(d);
    }()) {}
  bool sleep() { shim::now_ns() += p_.count(); return true; }
  std::chrono::nanoseconds period() const { return p_; }
};
using WallRate = GenericRate<std::chrono::steady_clock>;
using Rate = GenericRate<std::chrono::system_clock>;

class Node : public std::enable_shared_from_this<Node>
{
protected:
  std::string name_, namespace_;
  node_interfaces::NodeParametersInterface::SharedPtr parameters_ =
    std::make_shared<node_interfaces::NodeParametersInterface>();
  Clock::SharedPtr clock_ = std::make_shared<Clock>(RCL_ROS_TIME);

public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & = NodeOptions()) : name_(name) {}
  explicit Node(const std::string & name, const std::string & ns, const NodeOptions & = NodeOptions())
  : name_(name), namespace_(ns) {}
  virtual ~Node() = default;
  const char * get_name() const { return name_.c_str(); }
  const char * get_namespace() const { return namespace_.c_str(); }
  Logger get_logger() const { return Logger(name_); }
  Clock::SharedPtr get_clock() const { return clock_; }
  Time now() const { return clock_->now(); }
  auto get_node_parameters_interface() const { return parameters_; }
  auto get_node_timers_interface() const { return std::make_shared<node_interfaces::NodeTimersInterface>(); }
  auto get_node_base_interface() const { return std::make_shared<node_interfaces::NodeBaseInterface>(); }
  bool has_parameter(const std::string & n) const { return parameters_->has_parameter(n); }
  template <typename T> T declare_parameter(const std::string & n, const T & v)
  {
    if (not parameters_->has_parameter(n)) parameters_->declare_parameter(n, ParameterValue(v));
    return parameters_->get_parameter(n).template get_value<T>();
  }
  std::string declare_parameter(const std::string & n, const char * v)
  {
    return declare_parameter<std::string>(n, std::string(v));
  }
  template <typename T> T declare_parameter(const std::string & n) { return declare_parameter<T>(n, T{}); }
  Parameter get_parameter(const std::string & n) const { return parameters_->get_parameter(n); }
  template <typename T> bool get_parameter(const std::string & n, T & out) const
  {
    if (not parameters_->has_parameter(n)) return false;
    out = parameters_->get_parameter(n).template get_value<T>();
    return true;
  }
  template <typename T> bool get_parameter_or(const std::string & n, T & out, const T & otherwise) const
  {
    if (get_parameter(n, out)) return true;
    out = otherwise;
    return false;
  }
  template <typename T> T get_parameter_or(const std::string & n, const T & otherwise) const
  {
    T out;
    get_parameter_or(n, out, otherwise);
    return out;
  }
  struct ListParametersResult
  {
    std::vector<std::string> names;
  };
  ListParametersResult list_parameters(const std::vector<std::string> & prefixes, std::uint64_t) const
  {
    ListParametersResult r;
    for (const auto & n : parameters_->names()) {
      bool match = prefixes.empty();
      for (const auto & p : prefixes) match |= n.rfind(p + ".", 0) == 0;
      if (match) r.names.push_back(n);
    }
    return r;
  }
  void set_parameter(const Parameter & p) { parameters_->set(p.get_name(), p.get_parameter_value()); }

  template <typename T, typename... Ts>
  typename Publisher<T>::SharedPtr create_publisher(const std::string & topic, const QoS &, Ts &&...)
  {
    return std::make_shared<Publisher<T>>(topic);
  }
  template <typename T, typename F, typename... Ts>
  typename Subscription<T>::SharedPtr create_subscription(const std::string & topic, const QoS &, F && f, Ts &&...)
  {
    return std::make_shared<Subscription<T>>(topic, std::forward<F>(f));
  }
  template <typename S, typename... Ts>
  typename Client<S>::SharedPtr create_client(const std::string & n, Ts &&...)
  {
    return std::make_shared<Client<S>>(n);
  }
  template <typename S, typename F, typename... Ts>
  typename Service<S>::SharedPtr create_service(const std::string & n, F && f, Ts &&...)
  {
    shim::services<S>()[n] = std::forward<F>(f);
    return std::make_shared<Service<S>>();
  }
  template <typename D, typename F>
  TimerBase::SharedPtr create_wall_timer(D d, F && f)
  {
    auto t = std::make_shared<TimerBase>();
    t->period = std::chrono::duration_cast<std::chrono::nanoseconds>(d);
    t->callback = std::forward<F>(f);
    shim::timers().push_back(t);
    return t;
  }
};

namespace shim_detail
{
template <typename N> decltype(auto) deref(N && n)
{
  if constexpr (std::is_base_of_v<Node, std::decay_t<N>>) return (n);
  else return (*n);
}
}  // namespace shim_detail

namespace node_interfaces
{
template <typename N> auto get_node_parameters_interface(N && n)
{
  return shim_detail::deref(n).get_node_parameters_interface();
}
template <typename N> auto get_node_timers_interface(N && n)
{
  return shim_detail::deref(n).get_node_timers_interface();
}
template <typename N> auto get_node_base_interface(N && n)
{
  return shim_detail::deref(n).get_node_base_interface();
}
}  // namespace node_interfaces

template <typename T, typename A = std::allocator<void>, typename P = Publisher<T, A>, typename N>
std::shared_ptr<Publisher<T>> create_publisher(
  N &&, const std::string & topic, const QoS &,
  const PublisherOptionsWithAllocator<A> & = PublisherOptionsWithAllocator<A>())
{
  return std::make_shared<Publisher<T>>(topic);
}
template <typename T, typename N, typename F, typename... Ts>
typename Subscription<T>::SharedPtr create_subscription(
  N &&, const std::string & topic, const QoS &, F && f, Ts &&...)
{
  return std::make_shared<Subscription<T>>(topic, std::forward<F>(f));
}
template <typename F, typename D, typename... Ts>
TimerBase::SharedPtr make_timer_(D d, F && f)
{
  auto t = std::make_shared<TimerBase>();
  t->period = d;
  t->callback = std::forward<F>(f);
  shim::timers().push_back(t);
  return t;
}
template <typename B, typename Ti, typename C, typename D, typename F, typename... Ts>
TimerBase::SharedPtr create_timer(B, Ti, C, const D & period, F && f, Ts &&...)
{
  auto t = std::make_shared<TimerBase>();
  t->period = std::chrono::nanoseconds(Duration(period).nanoseconds());
  t->callback = std::forward<F>(f);
  shim::timers().push_back(t);
  return t;
}
template <typename N, typename C, typename D, typename F>
TimerBase::SharedPtr create_timer(N &&, C, const D & period, F && f)
{
  auto t = std::make_shared<TimerBase>();
  t->period = std::chrono::nanoseconds(Duration(period).nanoseconds());
  t->callback = std::forward<F>(f);
  shim::timers().push_back(t);
  return t;
}
namespace executors
{
class SingleThreadedExecutor
{
public:
  template <typename... Ts> void add_node(Ts &&...) {}
  template <typename... Ts> void remove_node(Ts &&...) {}
  template <typename... Ts> void spin_some(Ts &&...) {}
  template <typename... Ts> void spin_once(Ts &&...) {}
  void spin() {}
};
using MultiThreadedExecutor = SingleThreadedExecutor;
}  // namespace executors
template <typename... Ts> void spin(Ts &&...) {}
template <typename... Ts> void spin_some(Ts &&...) {}
}  // namespace rclcpp

#define SHIM_LOG_STREAM_(LEVEL, X)  \
  do {                              \
    std::ostringstream shim_ss_;    \
    shim_ss_ << X;                  \
    shim::log(LEVEL, shim_ss_.str()); \
  } while (0)
#define SHIM_LOG_FMT_(LEVEL, ...)                          \
  do {                                                     \
    char shim_buf_[4096];                                  \
    std::snprintf(shim_buf_, sizeof(shim_buf_), __VA_ARGS__); \
    shim::log(LEVEL, shim_buf_);                           \
  } while (0)
#define RCLCPP_DEBUG_STREAM(L, X) SHIM_LOG_STREAM_("DEBUG", X)
#define RCLCPP_INFO_STREAM(L, X) SHIM_LOG_STREAM_("INFO", X)
#define RCLCPP_WARN_STREAM(L, X) SHIM_LOG_STREAM_("WARN", X)
#define RCLCPP_ERROR_STREAM(L, X) SHIM_LOG_STREAM_("ERROR", X)
#define RCLCPP_FATAL_STREAM(L, X) SHIM_LOG_STREAM_("FATAL", X)
#define RCLCPP_DEBUG(L, ...) SHIM_LOG_FMT_("DEBUG", __VA_ARGS__)
#define RCLCPP_INFO(L, ...) SHIM_LOG_FMT_("INFO", __VA_ARGS__)
#define RCLCPP_WARN(L, ...) SHIM_LOG_FMT_("WARN", __VA_ARGS__)
#define RCLCPP_ERROR(L, ...) SHIM_LOG_FMT_("ERROR", __VA_ARGS__)
#define RCLCPP_WARN_ONCE(L, ...) SHIM_LOG_FMT_("WARN", __VA_ARGS__)
#define RCLCPP_WARN_STREAM_ONCE(L, X) SHIM_LOG_STREAM_("WARN", X)
#define RCLCPP_ERROR_STREAM_ONCE(L, X) SHIM_LOG_STREAM_("ERROR", X)
#define RCLCPP_INFO_ONCE(L, ...) SHIM_LOG_FMT_("INFO", __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(L, C, D, ...) SHIM_LOG_FMT_("WARN", __VA_ARGS__)
#define RCLCPP_WARN_STREAM_THROTTLE(L, C, D, X) SHIM_LOG_STREAM_("WARN", X)
