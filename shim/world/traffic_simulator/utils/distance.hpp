#ifndef VERIF_WORLD_DISTANCE_HPP_
#define VERIF_WORLD_DISTANCE_HPP_
#include <geometry/bounding_box.hpp>
#include <optional>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
namespace traffic_simulator::distance
{
inline auto boundingBoxDistance(const geometry_msgs::msg::Pose & from, const traffic_simulator_msgs::msg::BoundingBox & fb, const geometry_msgs::msg::Pose & to, const traffic_simulator_msgs::msg::BoundingBox & tb) -> std::optional<double>
{
  return math::geometry::getPolygonDistance(from, fb, to, tb);
}
}  // namespace traffic_simulator::distance
#endif
