#ifndef VERIF_TF2_ROS_H_
#define VERIF_TF2_ROS_H_
#include <rclcpp/rclcpp.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <tf2_geometry_msgs/tf2_geometry_msgs.hpp>
namespace tf2
{
struct TransformException : std::runtime_error { using std::runtime_error::runtime_error; };
using TimePoint = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
inline const TimePoint TimePointZero{};
}  // namespace tf2
namespace tf2_ros
{
struct TransformBroadcaster
{
  template <typename N> explicit TransformBroadcaster(N &&) {}
  std::vector<geometry_msgs::msg::TransformStamped> sent;
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { if (sent.size() < 1000) sent.push_back(t); }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> &) {}
};
using StaticTransformBroadcaster = TransformBroadcaster;
struct Buffer
{
  explicit Buffer(rclcpp::Clock::SharedPtr) {}
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string &, const std::string &, const tf2::TimePoint &) const { throw tf2::TransformException("no transform"); }
  bool canTransform(const std::string &, const std::string &, const tf2::TimePoint &) const { return false; }
};
struct TransformListener { template <typename... T> explicit TransformListener(T &&...) {} };
}  // namespace tf2_ros
#endif
