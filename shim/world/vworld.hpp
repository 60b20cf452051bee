// The state of the stand-in world behind the interpreter: entities the harness moves, and the
// record of every request the interpreter made.
#ifndef VERIF_WORLD_HPP_
#define VERIF_WORLD_HPP_
#include <functional>
#include <geometry_msgs/msg/accel.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/twist.hpp>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <traffic_simulator_msgs/msg/behavior_parameter.hpp>
#include <traffic_simulator_msgs/msg/bounding_box.hpp>
#include <vector>
namespace vworld
{
struct Request
{
  double time;
  std::string entity, what;
  double value = 0;
  std::string text;
};
struct Entity
{
  std::string name, kind, action, model3d, behavior;
  geometry_msgs::msg::Pose pose;
  geometry_msgs::msg::Twist twist;
  geometry_msgs::msg::Accel accel;
  traffic_simulator_msgs::msg::BoundingBox box;
  traffic_simulator_msgs::msg::BehaviorParameter behavior_parameter;
  double stand_still = 0;
  bool has_lane = true, ego = false, engaged = false, engageable = true;
  std::string turn = "DISABLE", emergency = "NORMAL", mrm_behavior = "NONE", mrm_state = "NORMAL";
};
struct State
{
  double time = std::numeric_limits<double>::quiet_NaN();
  double step = .05;
  long frames = 0;
  int constructed = 0, closed = 0;
  bool started = false;
  std::map<std::string, std::shared_ptr<Entity>> entities;
  std::vector<Request> requests;
  std::map<long, std::string> lights, v2i_lights;
  std::map<long, bool> v2i_feature;
  std::set<std::pair<std::string, std::string>> collisions;
};
inline State & state() { static State s; return s; }
/// called at the end of every frame, and for every request (which it may answer by throwing)
inline std::function<void()> & on_construct() { static std::function<void()> f; return f; }
inline std::function<void()> & on_close() { static std::function<void()> f; return f; }
inline std::function<void()> & on_frame() { static std::function<void()> f; return f; }
inline std::function<void(const Request &)> & on_request() { static std::function<void(const Request &)> f; return f; }
inline void request(const std::string & e, const std::string & w, double v = 0, const std::string & t = "")
{
  state().requests.push_back({state().time, e, w, v, t});
  if (on_request()) on_request()(state().requests.back());
}
}  // namespace vworld
#endif
