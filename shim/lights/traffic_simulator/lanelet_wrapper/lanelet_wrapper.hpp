// The part of the map library the traffic lights use, over a map the harness makes.
#ifndef VERIF_LIGHTS_LANELET_WRAPPER_HPP_
#define VERIF_LIGHTS_LANELET_WRAPPER_HPP_
#include <geometry_msgs/msg/point.hpp>
#include <lanelet2_core/Forward.h>
#include <memory>
#include <optional>
#include <string>
#include <vector>
namespace lanelet
{
struct ConstLineString3d
{
  Id n = 0;
  Id id() const { return n; }
};
struct TrafficLight
{
  using Ptr = std::shared_ptr<TrafficLight>;
  std::vector<ConstLineString3d> refers;
  Id n = 0;
  Id id() const { return n; }
  template <typename T> std::vector<T> getParameters(const std::string & role) const { return role == "refers" ? refers : std::vector<T>{}; }
  std::vector<ConstLineString3d> trafficLights() const { return refers; }
};
using AutowareTrafficLightConstPtr = std::shared_ptr<const TrafficLight>;
}  // namespace lanelet
namespace traffic_simulator::lanelet_wrapper
{
using Point = geometry_msgs::msg::Point;
}
#endif
