#ifndef VERIF_WORLD_ENTITY_STATUS_HPP_
#define VERIF_WORLD_ENTITY_STATUS_HPP_
#include <optional>
#include <string>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <traffic_simulator_msgs/msg/entity_status.hpp>
#include <unordered_map>
namespace traffic_simulator
{
using EntityStatus = traffic_simulator_msgs::msg::EntityStatus;
class CanonicalizedEntityStatus {};
}  // namespace traffic_simulator
#endif
