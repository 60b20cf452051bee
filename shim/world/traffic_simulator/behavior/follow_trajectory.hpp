#ifndef VERIF_WORLD_FOLLOW_TRAJECTORY_HPP_
#define VERIF_WORLD_FOLLOW_TRAJECTORY_HPP_
#include <traffic_simulator_msgs/msg/polyline_trajectory.hpp>
#endif
