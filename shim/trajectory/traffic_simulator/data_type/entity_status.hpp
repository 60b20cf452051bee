// Stand-in: only the message alias, without the lanelet map behind CanonicalizedEntityStatus.
#ifndef TRAFFIC_SIMULATOR__DATA_TYPE__ENTITY_STATUS_HPP_
#define TRAFFIC_SIMULATOR__DATA_TYPE__ENTITY_STATUS_HPP_
#include <traffic_simulator/utils/pose.hpp>
#include <traffic_simulator_msgs/msg/entity_status.hpp>
#include <traffic_simulator_msgs/msg/entity_type.hpp>
namespace traffic_simulator
{
using EntityStatus = traffic_simulator_msgs::msg::EntityStatus;
using EntityType = traffic_simulator_msgs::msg::EntityType;
}
#endif
