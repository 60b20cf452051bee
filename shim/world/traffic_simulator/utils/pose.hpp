#ifndef VERIF_WORLD_POSE_HPP_
#define VERIF_WORLD_POSE_HPP_
#include <geometry/bounding_box.hpp>
#include <geometry/transform.hpp>
#include <optional>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <traffic_simulator/data_type/routing_configuration.hpp>
#include <traffic_simulator/utils/distance.hpp>
#include <traffic_simulator_msgs/msg/bounding_box.hpp>
namespace traffic_simulator::pose
{
using geometry_msgs::msg::Pose;
using traffic_simulator_msgs::msg::BoundingBox;
inline auto quietNaNPose() -> Pose
{
  constexpr auto n = std::numeric_limits<double>::quiet_NaN();
  Pose p;
  p.position.x = p.position.y = p.position.z = n;
  p.orientation.x = p.orientation.y = p.orientation.z = 0;
  p.orientation.w = 1;
  return p;
}
inline auto quietNaNLaneletPose() -> LaneletPose
{
  constexpr auto n = std::numeric_limits<double>::quiet_NaN();
  LaneletPose p;
  p.lanelet_id = std::numeric_limits<std::int64_t>::max();
  p.s = p.offset = p.rpy.x = p.rpy.y = p.rpy.z = n;
  return p;
}
inline auto toCanonicalizedLaneletPose(const Pose & p, const bool) -> std::optional<CanonicalizedLaneletPose>
{
  for (auto & [id, lane] : vworld::lanes()) {
    if (std::abs(p.position.y - lane.y) <= 1.5 and p.position.x >= 0 and p.position.x <= lane.length) {
      LaneletPose l;
      l.lanelet_id = id;
      l.s = p.position.x;
      l.offset = p.position.y - lane.y;
      l.rpy = math::geometry::convertQuaternionToEulerAngle(p.orientation);
      return CanonicalizedLaneletPose(l);
    }
  }
  return std::nullopt;
}
inline auto toMapPose(const CanonicalizedLaneletPose & p) -> Pose { return static_cast<Pose>(p); }
inline auto relativePose(const Pose & from, const Pose & to) -> std::optional<Pose>
{
  return math::geometry::getRelativePose(from, to);
}
inline auto relativePose(const Pose & from, const CanonicalizedLaneletPose & to) { return relativePose(from, toMapPose(to)); }
inline auto relativePose(const CanonicalizedLaneletPose & from, const Pose & to) { return relativePose(toMapPose(from), to); }
inline auto boundingBoxRelativePose(const Pose & from, const BoundingBox & fb, const Pose & to, const BoundingBox & tb) -> std::optional<Pose>
{
  if (const auto c = math::geometry::getClosestPoses(from, fb, to, tb)) {
    const auto a = relativePose(from, c->first), b = relativePose(from, c->second);
    return math::geometry::subtractPoses(a.value(), b.value());
  }
  return std::nullopt;
}
inline auto relativeLaneletPose(const CanonicalizedLaneletPose & from, const CanonicalizedLaneletPose & to, const RoutingConfiguration & rc) -> LaneletPose
{
  auto p = quietNaNLaneletPose();
  const auto f = static_cast<LaneletPose>(from), t = static_cast<LaneletPose>(to);
  if (f.lanelet_id == t.lanelet_id or rc.allow_lane_change) {
    p.s = t.s - f.s;
    p.offset = static_cast<Pose>(to).position.y - static_cast<Pose>(from).position.y;
  }
  return p;
}
inline auto boundingBoxRelativeLaneletPose(const CanonicalizedLaneletPose & from, const BoundingBox & fb, const CanonicalizedLaneletPose & to, const BoundingBox & tb, const RoutingConfiguration & rc) -> LaneletPose
{
  auto p = relativeLaneletPose(from, to, rc);
  // longitudinal and lateral gaps between axis-aligned boxes
  auto gap = [](double d, double fc, double fh, double tc, double th) {
    const double front = d + tc - th - (fc + fh), back = d + tc + th - (fc - fh);
    return front > 0 ? front : back < 0 ? back : 0.0;
  };
  if (not std::isnan(p.s)) {
    p.s = gap(p.s, fb.center.x, fb.dimensions.x / 2, tb.center.x, tb.dimensions.x / 2);
    p.offset = gap(p.offset, fb.center.y, fb.dimensions.y / 2, tb.center.y, tb.dimensions.y / 2);
  }
  return p;
}
}  // namespace traffic_simulator::pose
#endif
