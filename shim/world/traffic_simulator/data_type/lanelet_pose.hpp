// A stand-in for the lanelet poses of the traffic simulator: the road network is a set of
// straight parallel lanes along the x axis, lane <id> having its centre at y = vworld::lane_y(id).
#ifndef VERIF_WORLD_LANELET_POSE_HPP_
#define VERIF_WORLD_LANELET_POSE_HPP_
#include <cmath>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <iostream>
#include <lanelet2_core/Forward.h>
#include <limits>
#include <map>
#include <scenario_simulator_exception/exception.hpp>
#include <traffic_simulator_msgs/msg/lanelet_pose.hpp>
namespace vworld
{
struct Lane { double y, length; };
inline std::map<long, Lane> & lanes()
{
  static std::map<long, Lane> m{{1, {0, 1000}}, {2, {3, 1000}}, {3, {6, 1000}}, {4, {-3, 1000}}};
  return m;
}
}  // namespace vworld
namespace traffic_simulator
{
using LaneletPose = traffic_simulator_msgs::msg::LaneletPose;
namespace lanelet_pose
{
class CanonicalizedLaneletPose
{
  LaneletPose pose_;
  geometry_msgs::msg::Pose map_;
public:
  explicit CanonicalizedLaneletPose(const LaneletPose & p) : pose_(p)
  {
    auto it = vworld::lanes().find(p.lanelet_id);
    if (it == vworld::lanes().end() or not(p.s >= 0 and p.s <= it->second.length)) {
      THROW_SEMANTIC_ERROR("Lanelet pose (id=", p.lanelet_id, ", s=", p.s, ") is invalid, please check lanelet length and connection.");
    }
    map_.position.x = p.s;
    map_.position.y = it->second.y + p.offset;
    map_.orientation = math::geometry::convertEulerAngleToQuaternion(p.rpy);
  }
  CanonicalizedLaneletPose() {}
  CanonicalizedLaneletPose(const CanonicalizedLaneletPose &) = default;
  CanonicalizedLaneletPose & operator=(const CanonicalizedLaneletPose &) = default;
  explicit operator LaneletPose() const { return pose_; }
  explicit operator geometry_msgs::msg::Pose() const { return map_; }
  auto getLaneletPose() const -> const LaneletPose & { return pose_; }
  auto getLaneletId() const { return pose_.lanelet_id; }
  static inline bool consider_slope = false;
  static auto setConsiderPoseByRoadSlope(bool x) -> void { consider_slope = x; }
};
}  // namespace lanelet_pose
using lanelet_pose::CanonicalizedLaneletPose;
}  // namespace traffic_simulator
#endif
