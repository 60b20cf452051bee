// A stand-in for the traffic simulator behind the interpreter's SimulatorCore: a world of
// entities on straight parallel lanes whose states the harness sets, which records every
// request the interpreter makes.
#ifndef VERIF_WORLD_API_HPP_
#define VERIF_WORLD_API_HPP_
#include <boost/math/constants/constants.hpp>
#include <functional>
#include <geometry/vector3/operator.hpp>
#include <geometry_msgs/msg/accel.hpp>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/twist.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include <get_parameter/get_parameter.hpp>
#include <map>
#include <memory>
#include <optional>
#include <rclcpp/rclcpp.hpp>
#include <sstream>
#include <string>
#include <traffic_simulator/api/configuration.hpp>
#include <traffic_simulator/data_type/entity_status.hpp>
#include <traffic_simulator/data_type/lane_change.hpp>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <traffic_simulator/data_type/route_option.hpp>
#include <traffic_simulator/data_type/routing_configuration.hpp>
#include <traffic_simulator/data_type/speed_change.hpp>
#include <traffic_simulator/utils/distance.hpp>
#include <traffic_simulator/utils/pose.hpp>
#include <traffic_simulator/utils/route.hpp>
#include <traffic_simulator_msgs/msg/behavior_parameter.hpp>
#include <traffic_simulator_msgs/msg/misc_object_parameters.hpp>
#include <traffic_simulator_msgs/msg/pedestrian_parameters.hpp>
#include <traffic_simulator_msgs/msg/polyline_trajectory.hpp>
#include <traffic_simulator_msgs/msg/vehicle_parameters.hpp>
#include <simulation_interface/simulation_api_schema.pb.h>
#include <vector>
#include <vworld.hpp>

namespace traffic_simulator
{
namespace entity
{
class EntityBase
{
public:
  std::shared_ptr<vworld::Entity> e;
  explicit EntityBase(std::shared_ptr<vworld::Entity> x) : e(x) {}
  virtual ~EntityBase() = default;
  auto getMapPose() const -> const geometry_msgs::msg::Pose & { return e->pose; }
  auto getBoundingBox() const { return e->box; }
  auto getCurrentTwist() const { return e->twist; }
  auto getCurrentAccel() const { return e->accel; }
  auto getStandStillDuration() const { return e->stand_still; }
  auto getCurrentAction() const { return e->action; }
  auto getCanonicalizedLaneletPose() const -> std::optional<CanonicalizedLaneletPose>
  {
    return e->has_lane ? pose::toCanonicalizedLaneletPose(e->pose, false) : std::nullopt;
  }
  auto setStatus(const geometry_msgs::msg::Pose & p) -> void { e->pose = p; vworld::request(e->name, "teleport"); }
  auto setStatus(const CanonicalizedLaneletPose & p) -> void { e->pose = static_cast<geometry_msgs::msg::Pose>(p); vworld::request(e->name, "teleport"); }
  auto setStatus(const LaneletPose & p) -> void { setStatus(CanonicalizedLaneletPose(p)); }
  template <typename D>
  auto setStatus(const geometry_msgs::msg::Pose & reference, const geometry_msgs::msg::Point & relative, const D & direction) -> void
  {
    e->pose = reference;
    e->pose.position.x += relative.x;
    e->pose.position.y += relative.y;
    e->pose.position.z += relative.z;
    (void)direction;
    vworld::request(e->name, "teleport");
  }
  template <typename D>
  auto setStatus(const geometry_msgs::msg::Pose & reference, const geometry_msgs::msg::Pose & relative, const D & direction) -> void { setStatus(reference, relative.position, direction); }
  template <typename P> auto requestAcquirePosition(const P & p, const RouteOption & o) -> void
  {
    const auto q = [&]() { if constexpr (std::is_same_v<P, geometry_msgs::msg::Pose>) return p; else return static_cast<geometry_msgs::msg::Pose>(p); }();
    vworld::request(e->name, "acquire_position", q.position.x, o.allow_goal_modification ? "goal_modification" : "");
  }
  auto requestAssignRoute(const std::vector<CanonicalizedLaneletPose> & w, const RouteOption &) -> void { vworld::request(e->name, "assign_route", w.size()); }
  auto requestFollowTrajectory(const std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> & t) -> void { vworld::request(e->name, "follow_trajectory", t->shape.vertices.size()); e->action = "follow_polyline_trajectory"; }
  auto requestLaneChange(const lane_change::AbsoluteTarget & t, const lane_change::TrajectoryShape, const lane_change::Constraint & c) -> void { e->action = "lane_change"; vworld::request(e->name, "lane_change", t.lanelet_id, std::to_string(c.value)); }
  auto requestLaneChange(const lane_change::RelativeTarget & t, const lane_change::TrajectoryShape, const lane_change::Constraint & c) -> void { e->action = "lane_change"; vworld::request(e->name, "lane_change_relative", t.shift, t.entity_name + (t.direction == lane_change::Direction::LEFT ? "/left" : t.direction == lane_change::Direction::RIGHT ? "/right" : "/straight")); (void)c; }
  auto requestSpeedChange(const double v, const speed_change::Transition, const speed_change::Constraint &, const bool continuous) -> void { vworld::request(e->name, "speed", v, continuous ? "continuous" : ""); }
  auto requestSpeedChange(const speed_change::RelativeTargetSpeed & t, const speed_change::Transition, const speed_change::Constraint &, const bool continuous) -> void { vworld::request(e->name, "speed_relative", t.value, t.reference_entity_name + (t.type == speed_change::RelativeTargetSpeed::Type::DELTA ? "/delta" : "/factor") + (continuous ? "/continuous" : "")); }
  auto requestWalkStraight() -> void { vworld::request(e->name, "walk_straight"); }
  auto getBehaviorParameter() const { return e->behavior_parameter; }
  auto setBehaviorParameter(const traffic_simulator_msgs::msg::BehaviorParameter & p) -> void { e->behavior_parameter = p; }
  auto setVelocityLimit(const double v) -> void { vworld::request(e->name, "velocity_limit", v); }
  auto setLateralCollisionThreshold(const std::optional<double> & v) -> void { (void)v; }
  auto activateOutOfRangeJob(double, double, double, double, double, double) -> void {}
};
class EgoEntity : public EntityBase
{
public:
  using EntityBase::EntityBase;
  auto engage() -> void { vworld::request(e->name, "engage"); e->engaged = true; }
  auto isEngageable() const -> bool { return e->engageable; }
  auto isEngaged() const -> bool { return e->engaged; }
  auto sendCooperateCommand(const std::string & m, const std::string & c) -> void { vworld::request(e->name, "cooperate", 0, m + "/" + c); }
  auto getMinimumRiskManeuverBehaviorName() const -> std::string { return e->mrm_behavior; }
  auto getMinimumRiskManeuverStateName() const -> std::string { return e->mrm_state; }
  auto getEmergencyStateName() const -> std::string { return e->emergency; }
  auto getTurnIndicatorsCommandName() const -> std::string { return e->turn; }
  template <typename T> auto setParameter(const std::string & n, const T & v) -> void { std::stringstream s; s << v; vworld::request(e->name, "parameter", 0, n + "=" + s.str()); }
  auto requestAutoModeForCooperation(const std::string & m, const bool b) -> void { vworld::request(e->name, "auto_mode", b, m); }
};
}  // namespace entity

struct VehicleBehavior
{
  static auto autoware() noexcept -> const std::string & { static const std::string n = "Autoware"; return n; }
  static auto defaultBehavior() noexcept -> const std::string & { static const std::string n = "BehaviorTree"; return n; }
};
struct PedestrianBehavior : VehicleBehavior {};
struct MicsObjectBehavior
{
  static auto noBehavior() noexcept -> const std::string & { static const std::string n = ""; return n; }
};

class LightsStub
{
  std::string n;
  std::map<long, std::string> & m;
public:
  LightsStub(const std::string & x, std::map<long, std::string> & y) : n(x), m(y) {}
  auto setTrafficLightsState(const lanelet::Id id, const std::string & s) -> void { m[id] = s; vworld::request(n, "set_lights", id, s); }
  auto clearTrafficLightsState(const lanelet::Id id) -> void { m[id] = ""; vworld::request(n, "clear_lights", id); }
  auto addTrafficLightsState(const lanelet::Id id, const std::string & s) -> void { m[id] = m[id].empty() ? s : m[id] + "; " + s; vworld::request(n, "add_lights", id, s); }
  auto setTrafficLightsConfidence(const lanelet::Id id, const double c) -> void { vworld::request(n, "confidence", c, std::to_string(id)); }
  auto getTrafficLightsComposedState(const lanelet::Id id) -> std::string { return m[id]; }
  auto compareTrafficLightsState(const lanelet::Id id, const std::string & s) -> bool { return m[id] == s; }
  auto resetUpdate(const double r) -> void { vworld::request(n, "rate", r); }
  template <typename... Ts> auto addTrafficLightsStatePrediction(Ts &&...) -> void { vworld::request(n, "prediction"); }
  template <typename... Ts> auto clearTrafficLightsStatePredictions(Ts &&...) -> void {}
  template <typename... Ts> auto addState(const std::string & s, const lanelet::Id id, Ts &&...) -> void { vworld::request(n, "add_detected", id, s); }
  template <typename... Ts> auto addState(const lanelet::Id id, const std::string & s, Ts &&...) -> void { vworld::request(n, "add_detected", id, s); }
  template <typename... Ts> auto clearState(Ts &&...) -> void { vworld::request(n, "clear_detected"); }
};

class API
{
  std::map<std::string, std::shared_ptr<entity::EntityBase>> wrapped_;
  std::shared_ptr<LightsStub> conventional_ = std::make_shared<LightsStub>("conventional", vworld::state().lights), v2i_ = std::make_shared<LightsStub>("v2i", vworld::state().v2i_lights);
public:
  template <typename Node> API(const Node &, const Configuration &, double realtime_factor, double frame_rate)
  {
    (void)realtime_factor;
    vworld::state().step = 1 / frame_rate;
    vworld::state().time = std::numeric_limits<double>::quiet_NaN();
    vworld::state().started = false;
    ++vworld::state().constructed;
    if (vworld::on_construct()) vworld::on_construct()();
  }
  auto updateFrame() -> bool
  {
    auto & s = vworld::state();
    ++s.frames;
    if (s.started) s.time = std::isnan(s.time) ? 0 : s.time + s.step;
    if (vworld::on_frame()) vworld::on_frame()();
    return true;
  }
  auto getCurrentTime() const noexcept -> double { return vworld::state().time; }
  auto startNpcLogic() -> void
  {
    if (vworld::state().started) { THROW_SIMULATION_ERROR("NPC logics are already started."); }
    vworld::state().started = true;
    vworld::state().time = 0;
  }
  auto closeZMQConnection() -> void { ++vworld::state().closed; if (vworld::on_close()) vworld::on_close()(); }
  template <typename P, typename Q>
  auto spawn(const std::string & name, const P & pose, const Q & parameters, const std::string & behavior, const std::string & model3d) -> entity::EntityBase &
  {
    auto & s = vworld::state();
    if (s.entities.count(name)) { THROW_SEMANTIC_ERROR("Entity ", name, " is already exists."); }
    auto e = std::make_shared<vworld::Entity>();
    e->name = name;
    e->behavior = behavior;
    e->model3d = model3d;
    e->box = parameters.bounding_box;
    e->ego = behavior == VehicleBehavior::autoware();
    e->kind = std::is_same_v<Q, traffic_simulator_msgs::msg::VehicleParameters> ? "vehicle" : std::is_same_v<Q, traffic_simulator_msgs::msg::PedestrianParameters> ? "pedestrian" : "misc_object";
    if constexpr (std::is_same_v<P, geometry_msgs::msg::Pose>) e->pose = pose; else e->pose = static_cast<geometry_msgs::msg::Pose>(pose);
    s.entities[name] = e;
    vworld::request(name, "spawn", 0, e->kind + "/" + behavior);
    return wrap(e);
  }
  auto wrap(const std::shared_ptr<vworld::Entity> & e) -> entity::EntityBase &
  {
    auto & w = wrapped_[e->name];
    if (not w or w->e != e) w = e->ego ? std::make_shared<entity::EgoEntity>(e) : std::make_shared<entity::EntityBase>(e);
    return *w;
  }
  auto despawn(const std::string & name) -> bool
  {
    vworld::request(name, "despawn");
    return vworld::state().entities.erase(name) > 0;
  }
  auto despawnEntities() -> bool { vworld::state().entities.clear(); vworld::request("", "despawn_all"); return true; }
  auto checkCollision(const std::string & a, const std::string & b) const -> bool { return vworld::state().collisions.count({a, b}) or vworld::state().collisions.count({b, a}); }
  auto getEntity(const std::string & n) -> entity::EntityBase &
  {
    auto it = vworld::state().entities.find(n);
    if (it == vworld::state().entities.end()) { THROW_SEMANTIC_ERROR("Entity : ", std::quoted(n), " does not exist."); }
    return wrap(it->second);
  }
  auto getEntityPointer(const std::string & n) -> std::shared_ptr<entity::EntityBase>
  {
    auto it = vworld::state().entities.find(n);
    if (it == vworld::state().entities.end()) return nullptr;
    wrap(it->second);
    return wrapped_[n];
  }
  auto getEgoEntity(const std::string & n) -> entity::EgoEntity &
  {
    auto e = dynamic_cast<entity::EgoEntity *>(&getEntity(n));
    if (not e) { THROW_SEMANTIC_ERROR("Entity ", std::quoted(n), " exists, but it is not ego"); }
    return *e;
  }
  auto getFirstEgoName() const -> std::optional<std::string>
  {
    for (auto & [n, e] : vworld::state().entities) if (e->ego) return n;
    return std::nullopt;
  }
  template <typename... Ts> auto attachImuSensor(Ts &&...) -> bool { return true; }
  template <typename... Ts> auto attachLidarSensor(Ts &&...) -> bool { return true; }
  template <typename... Ts> auto attachDetectionSensor(Ts &&...) -> bool { return true; }
  template <typename... Ts> auto attachOccupancyGridSensor(Ts &&...) -> bool { return true; }
  template <typename... Ts> auto attachPseudoTrafficLightDetector(Ts &&...) -> bool { return true; }
  auto getConventionalTrafficLights() { return conventional_; }
  auto getV2ITrafficLights() { return v2i_; }
  auto getConventionalDetectedTrafficLights() { return conventional_; }
  auto getV2IDetectedTrafficLights() { return v2i_; }
  auto setTrafficSignalV2IFeature(const lanelet::Id id, const bool b) -> void { vworld::state().v2i_feature[id] = b; vworld::request("v2i", "feature", b, std::to_string(id)); }
  auto isV2ITrafficLightEnabled(const lanelet::Id id) -> bool { auto it = vworld::state().v2i_feature.find(id); return it == vworld::state().v2i_feature.end() or it->second; }
};
}  // namespace traffic_simulator
#endif
