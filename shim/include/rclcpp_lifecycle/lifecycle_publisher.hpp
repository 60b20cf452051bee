#include <rclcpp_lifecycle/lifecycle_node.hpp>
