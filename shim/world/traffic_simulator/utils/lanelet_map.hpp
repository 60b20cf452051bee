#ifndef VERIF_WORLD_LANELET_MAP_HPP_
#define VERIF_WORLD_LANELET_MAP_HPP_
#include <string>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
namespace traffic_simulator::lanelet_map
{
inline auto activate(const std::string &) -> void {}
}  // namespace traffic_simulator::lanelet_map
#endif
