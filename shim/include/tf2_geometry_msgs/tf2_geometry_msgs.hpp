#ifndef VERIF_TF2_GEOMETRY_MSGS_HPP_
#define VERIF_TF2_GEOMETRY_MSGS_HPP_
#include <tf2/LinearMath/Transform.h>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/transform.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <geometry_msgs/msg/vector3.hpp>
namespace tf2
{
inline void fromMsg(const geometry_msgs::msg::Quaternion & i, Quaternion & o) { o = Quaternion(i.x, i.y, i.z, i.w); }
inline void fromMsg(const geometry_msgs::msg::Point & i, Vector3 & o) { o = Vector3(i.x, i.y, i.z); }
inline void fromMsg(const geometry_msgs::msg::Vector3 & i, Vector3 & o) { o = Vector3(i.x, i.y, i.z); }
inline void fromMsg(const geometry_msgs::msg::Pose & i, Transform & o) { o = Transform(Quaternion(i.orientation.x, i.orientation.y, i.orientation.z, i.orientation.w), Vector3(i.position.x, i.position.y, i.position.z)); }
inline void fromMsg(const geometry_msgs::msg::Transform & i, Transform & o) { o = Transform(Quaternion(i.rotation.x, i.rotation.y, i.rotation.z, i.rotation.w), Vector3(i.translation.x, i.translation.y, i.translation.z)); }
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q) { geometry_msgs::msg::Quaternion o; o.x = q.x(); o.y = q.y(); o.z = q.z(); o.w = q.w(); return o; }
inline geometry_msgs::msg::Vector3 toMsg(const Vector3 & v) { geometry_msgs::msg::Vector3 o; o.x = v.x(); o.y = v.y(); o.z = v.z(); return o; }
inline geometry_msgs::msg::Point & toMsg(const Vector3 & v, geometry_msgs::msg::Point & o) { o.x = v.x(); o.y = v.y(); o.z = v.z(); return o; }
inline geometry_msgs::msg::Transform toMsg(const Transform & t) { geometry_msgs::msg::Transform o; o.translation = toMsg(t.getOrigin()); o.rotation = toMsg(t.getRotation()); return o; }
inline geometry_msgs::msg::Pose & toMsg(const Transform & t, geometry_msgs::msg::Pose & o) { toMsg(t.getOrigin(), o.position); o.orientation = toMsg(t.getRotation()); return o; }
}  // namespace tf2
#endif
