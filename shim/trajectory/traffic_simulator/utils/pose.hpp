// Stand-in for the lanelet map: nothing, or one lane on a circle around the origin.
#ifndef VERIF_TRAJECTORY_POSE_HPP_
#define VERIF_TRAJECTORY_POSE_HPP_
#include <cmath>
#include <cstdint>
#include <optional>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include <traffic_simulator_msgs/msg/bounding_box.hpp>
#include <traffic_simulator_msgs/msg/lanelet_pose.hpp>
namespace vlane
{
inline double radius = 0;      // 0: no lane
inline double width = 3;       // poses further off the middle are not on the lane
inline long asked = 0, matched = 0;
}
namespace traffic_simulator
{
using LaneletPose = traffic_simulator_msgs::msg::LaneletPose;
struct RoutingConfiguration { bool allow_lane_change = false; };
struct CanonicalizedLaneletPose
{
  double s = 0, t = 0;
  explicit operator LaneletPose() const { LaneletPose p; p.lanelet_id = 1, p.s = s, p.offset = t; return p; }
};
namespace pose
{
inline auto on(const geometry_msgs::msg::Pose & p) -> std::optional<CanonicalizedLaneletPose>
{
  ++vlane::asked;
  if (not (vlane::radius > 0)) return std::nullopt;
  const double r = std::hypot(p.position.x, p.position.y);
  if (not (std::abs(r - vlane::radius) < vlane::width)) return std::nullopt;
  ++vlane::matched;
  return CanonicalizedLaneletPose{vlane::radius * std::atan2(p.position.y, p.position.x), vlane::radius - r};
}
template <typename... Ts>
auto toCanonicalizedLaneletPose(const geometry_msgs::msg::Pose & p, Ts &&...) -> std::optional<CanonicalizedLaneletPose> { return on(p); }
inline auto toCanonicalizedLaneletPose(const LaneletPose & p) -> std::optional<CanonicalizedLaneletPose> { return CanonicalizedLaneletPose{p.s, p.offset}; }
template <typename... Ts>
auto updatePositionForLaneletTransition(Ts &&...) -> std::optional<geometry_msgs::msg::Point> { return std::nullopt; }
}
}
#endif
