// Stand-in for rclcpp_lifecycle: the state machine with its error path, and publishers that
// drop messages while inactive.
#ifndef VERIF_RCLCPP_LIFECYCLE_HPP_
#define VERIF_RCLCPP_LIFECYCLE_HPP_
#include <rclcpp/rclcpp.hpp>
#include <lifecycle_msgs/msg/state.hpp>
#include <lifecycle_msgs/msg/transition.hpp>
namespace rclcpp_lifecycle
{
class State
{
  std::uint8_t id_ = 0;
  std::string label_;
public:
  State() = default;
  State(std::uint8_t i, const std::string & l) : id_(i), label_(l) {}
  std::uint8_t id() const { return id_; }
  std::string label() const { return label_; }
};
namespace node_interfaces
{
struct LifecycleNodeInterface
{
  enum class CallbackReturn : std::uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::FAILURE; }
  virtual ~LifecycleNodeInterface() = default;
};
}  // namespace node_interfaces

template <typename M, typename A = std::allocator<void>>
class LifecyclePublisher : public rclcpp::Publisher<M>
{
  std::atomic<bool> active{false};
public:
  using SharedPtr = std::shared_ptr<LifecyclePublisher>;
  void on_activate() { active = true; }
  void on_deactivate() { active = false; }
  bool is_activated() const { return active; }
  void publish(const M & m) override { if (active) rclcpp::Publisher<M>::publish(m); }
  void publish(std::unique_ptr<M> m) override { if (active) rclcpp::Publisher<M>::publish(std::move(m)); }
};

class LifecycleNode : public rclcpp::Node, public node_interfaces::LifecycleNodeInterface
{
  std::string vshim_error;
  std::atomic<std::uint8_t> state{lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED};
  using S = lifecycle_msgs::msg::State;
  static State make(std::uint8_t i)
  {
    static const std::map<std::uint8_t, std::string> n{{S::PRIMARY_STATE_UNCONFIGURED, "unconfigured"}, {S::PRIMARY_STATE_INACTIVE, "inactive"}, {S::PRIMARY_STATE_ACTIVE, "active"}, {S::PRIMARY_STATE_FINALIZED, "finalized"}};
    auto it = n.find(i);
    return State(i, it == n.end() ? "transition" : it->second);
  }
  template <typename F> State go(F f, std::uint8_t success, std::uint8_t failure)
  {
    State from = make(state);
    auto guarded = [&](auto g) {
      try { return g(); }
      catch (const std::exception & e) { vshim_error = e.what(); return CallbackReturn::ERROR; }   // as rclcpp_lifecycle does
    };
    auto r = guarded([&] { return f(from); });
    if (r == CallbackReturn::SUCCESS) state = success;
    else if (r == CallbackReturn::FAILURE) state = failure;
    else state = guarded([&] { return on_error(from); }) == CallbackReturn::SUCCESS ? S::PRIMARY_STATE_UNCONFIGURED : S::PRIMARY_STATE_FINALIZED;
    return make(state);
  }
public:
  using CallbackReturn = node_interfaces::LifecycleNodeInterface::CallbackReturn;
  explicit LifecycleNode(const std::string & n, const rclcpp::NodeOptions & o = rclcpp::NodeOptions()) : rclcpp::Node(n, o) {}
  LifecycleNode(const std::string & n, const std::string & ns, const rclcpp::NodeOptions & o = rclcpp::NodeOptions()) : rclcpp::Node(n, ns, o) {}
  State get_current_state() const { return make(state); }
  // A transition that the current state does not offer changes nothing (as in rcl_lifecycle).
  State configure() { return state == S::PRIMARY_STATE_UNCONFIGURED ? go([&](auto & s) { return on_configure(s); }, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_UNCONFIGURED) : make(state); }
  State cleanup() { return state == S::PRIMARY_STATE_INACTIVE ? go([&](auto & s) { return on_cleanup(s); }, S::PRIMARY_STATE_UNCONFIGURED, S::PRIMARY_STATE_INACTIVE) : make(state); }
  State activate() { return state == S::PRIMARY_STATE_INACTIVE ? go([&](auto & s) { return on_activate(s); }, S::PRIMARY_STATE_ACTIVE, S::PRIMARY_STATE_INACTIVE) : make(state); }
  State deactivate() { return state == S::PRIMARY_STATE_ACTIVE ? go([&](auto & s) { return on_deactivate(s); }, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_ACTIVE) : make(state); }
  State shutdown() { return state != S::PRIMARY_STATE_FINALIZED ? go([&](auto & s) { return on_shutdown(s); }, S::PRIMARY_STATE_FINALIZED, state) : make(state); }
  template <typename M, typename A = std::allocator<void>> std::shared_ptr<LifecyclePublisher<M>> create_publisher(const std::string & t, const rclcpp::QoS & q)
  {
    auto p = std::make_shared<LifecyclePublisher<M>>();
    p->topic = resolve(t);
    p->transient = q.transient;
    return p;
  }
};
}  // namespace rclcpp_lifecycle
#endif
