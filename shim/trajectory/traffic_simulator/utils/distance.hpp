#ifndef VERIF_TRAJECTORY_DISTANCE_HPP_
#define VERIF_TRAJECTORY_DISTANCE_HPP_
#include <traffic_simulator/utils/pose.hpp>
namespace traffic_simulator
{
namespace distance
{
inline auto longitudinalDistance(const CanonicalizedLaneletPose & a, const CanonicalizedLaneletPose & b, bool, bool, const RoutingConfiguration &) -> std::optional<double>
{
  const double round = 2 * M_PI * vlane::radius;
  double d = std::fmod(b.s - a.s, round);
  if (d < 0) d += round;
  return d > round / 2 ? std::nullopt : std::optional<double>(d);
}
inline auto lateralDistance(const CanonicalizedLaneletPose & a, const CanonicalizedLaneletPose & b, const RoutingConfiguration &) -> std::optional<double> { return b.t - a.t; }
}
}
#endif
