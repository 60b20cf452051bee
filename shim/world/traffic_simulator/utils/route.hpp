#ifndef VERIF_WORLD_ROUTE_HPP_
#define VERIF_WORLD_ROUTE_HPP_
#include <optional>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <traffic_simulator/data_type/routing_configuration.hpp>
#include <utility>
namespace traffic_simulator::route
{
/// number of lane changes to the left and to the right
inline auto countLaneChanges(const CanonicalizedLaneletPose & from, const CanonicalizedLaneletPose & to, const RoutingConfiguration & rc) -> std::optional<std::pair<int, int>>
{
  const double d = vworld::lanes().at(to.getLaneletId()).y - vworld::lanes().at(from.getLaneletId()).y;
  const int n = static_cast<int>(std::lround(d / 3));
  if (n != 0 and not rc.allow_lane_change) return std::nullopt;
  return std::make_pair(n > 0 ? n : 0, n < 0 ? -n : 0);
}
}  // namespace traffic_simulator::route
#endif
