// Stand-in for rclcpp_lifecycle: the state machine is driven synchronously by the harness.
#pragma once
#include <lifecycle_msgs/msg/state.hpp>
#include <rclcpp/rclcpp.hpp>
namespace rclcpp_lifecycle
{
class State
{
  std::uint8_t id_;
  std::string label_;

public:
  State(std::uint8_t id = 1, const std::string & l = "unconfigured") : id_(id), label_(l) {}
  std::uint8_t id() const { return id_; }
  std::string label() const { return label_; }
};
template <typename T>
class LifecyclePublisher : public rclcpp::Publisher<T>
{
  bool active_ = false;

public:
  using SharedPtr = std::shared_ptr<LifecyclePublisher>;
  using rclcpp::Publisher<T>::Publisher;
  void on_activate() { active_ = true; }
  void on_deactivate() { active_ = false; }
  bool is_activated() const { return active_; }
};
namespace node_interfaces
{
class LifecycleNodeInterface
{
public:
  enum class CallbackReturn : std::uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
};
}  // namespace node_interfaces
class LifecycleNode : public rclcpp::Node, public node_interfaces::LifecycleNodeInterface
{
  std::uint8_t state_ = lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED;

public:
  using CallbackReturn = node_interfaces::LifecycleNodeInterface::CallbackReturn;
  using SharedPtr = std::shared_ptr<LifecycleNode>;
  using rclcpp::Node::Node;
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::SUCCESS; }
  State get_current_state() const { return State(state_); }
  void shim_set_state(std::uint8_t s) { state_ = s; }
  template <typename T, typename... Ts>
  typename LifecyclePublisher<T>::SharedPtr create_publisher(const std::string & topic, const rclcpp::QoS &, Ts &&...)
  {
    return std::make_shared<LifecyclePublisher<T>>(topic);
  }
  // transitions
  CallbackReturn run_(std::uint8_t from_ok, std::uint8_t to, std::function<CallbackReturn()> f)
  {
    (void)from_ok;
    auto r = f();
    if (r == CallbackReturn::SUCCESS) state_ = to;
    else if (r == CallbackReturn::ERROR) {
      state_ = on_error(State(state_)) == CallbackReturn::SUCCESS ? 1 : 4;
    }
    return r;
  }
  const State & dummy_() const { static State s; return s; }
  const State & configure() { cur_ = (run_(1, 2, [&] { return on_configure(State(state_)); }), State(state_)); return cur_; }
  const State & activate() { cur_ = (run_(2, 3, [&] { return on_activate(State(state_)); }), State(state_)); return cur_; }
  const State & deactivate() { cur_ = (run_(3, 2, [&] { return on_deactivate(State(state_)); }), State(state_)); return cur_; }
  const State & cleanup() { cur_ = (run_(2, 1, [&] { return on_cleanup(State(state_)); }), State(state_)); return cur_; }
  const State & shutdown() { cur_ = (run_(0, 4, [&] { return on_shutdown(State(state_)); }), State(state_)); return cur_; }
  const State & trigger_transition(const State & s) { (void)s; return cur_; }
  State cur_;
};
}  // namespace rclcpp_lifecycle
