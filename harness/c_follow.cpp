// C24: entities follow trajectories step by step; every step is judged against the trajectory and the limits.
#include "vh.hpp"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <limits>
#include <unistd.h>
#include <rclcpp/rclcpp.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <traffic_simulator/behavior/follow_trajectory.hpp>
using Status = traffic_simulator_msgs::msg::EntityStatus;
using Trajectory = traffic_simulator_msgs::msg::PolylineTrajectory;
using Parameter = traffic_simulator_msgs::msg::BehaviorParameter;
using Point = geometry_msgs::msg::Point;
namespace
{
vh::Rng * g;
constexpr double nan_ = std::numeric_limits<double>::quiet_NaN();
double magnitude(double lo, double hi) { return std::exp(g->r(std::log(lo), std::log(hi))); }
double away(const Point & a, const Point & b) { return std::hypot(a.x - b.x, a.y - b.y, a.z - b.z); }
std::string str(const Point & p) { return vh::cat("(", p.x, ",", p.y, ",", p.z, ")"); }
struct Case
{
  double dt = .05;
  Status s;
  Trajectory t;
  Parameter p;
  std::optional<double> target;
  bool follows_own_speed = false;   // the target speed is the current one, as for entities without a target speed
  std::string str() const
  {
    const auto & c = p.dynamic_constraints;
    auto text = vh::cat("step ", dt, " at ", ::str(s.pose.position), " t ", s.time, " v ", s.action_status.twist.linear.x, " a ", s.action_status.accel.linear.x, " limits ", c.max_speed, " ", c.max_acceleration, " ", c.max_deceleration, " rates ", c.max_acceleration_rate, " ", c.max_deceleration_rate, " target ", target ? vh::cat(*target) : "-", follows_own_speed ? " own" : "", " base ", t.base_time, " lane ", vlane::radius, " path");
    for (const auto & v : t.shape.vertices) text += vh::cat(" ", ::str(v.position.position), "@", v.time);
    return text;
  }
};
traffic_simulator_msgs::msg::Vertex vertex(double x, double y, double z, double time)
{
  traffic_simulator_msgs::msg::Vertex v;
  v.position.position.x = x, v.position.position.y = y, v.position.position.z = z, v.time = time;
  return v;
}
struct Outcome { bool finished = false, error = false; int steps = 0, popped = 0; std::string what; double end = 0; };
Outcome run(Case k, int most)
{
  namespace ft = traffic_simulator::follow_trajectory;
  const std::string text = k.str();
  const auto & c = k.p.dynamic_constraints;
  // distances along the lane leave out the height and are measured in its middle
  const double near = vlane::radius > 0 ? .1 * (1 + vlane::width / vlane::radius) * 1.03 : .1 + 1e-9;
  Outcome o;
  while (o.steps < most) {
    const Status s = k.s;
    const Trajectory before = k.t;
    const double v = s.action_status.twist.linear.x, a = s.action_status.accel.linear.x, dt = k.dt;
    const auto & here = s.pose.position;
    const auto target = k.follows_own_speed ? std::optional<double>(v) : k.target;
    auto bad = [&](const char * key, const std::string & d) { vh::fail(key, text + vh::cat(", step ", o.steps, " at ", str(here), " t ", s.time, " v ", v, " a ", a, ", ", before.shape.vertices.size(), " left: ", d)); };
    std::optional<Status> r;
    ::alarm(20);
    try {
      r = ft::makeUpdatedStatus(s, k.t, k.p, dt, 1.0, target);
    } catch (const common::Error & e) {
      ::alarm(0);
      o.error = true, o.what = e.what();
      return o;
    }
    ::alarm(0);
    ++o.steps;
    // waypoints passed in this step
    const auto & old = before.shape.vertices;
    const auto & now = k.t.shape.vertices;
    if (now.size() > old.size() or now.size() < 2) { bad("waypoints-left", vh::cat(now.size())); return o; }
    const std::size_t n = old.size() - now.size();
    for (std::size_t i = 0; i < now.size(); ++i) if (not(now[i] == old[i + n]) and std::isfinite(now[i].time)) { bad("waypoint-changed", str(now[i].position.position)); return o; }
    const double fastest = std::max(v, v + std::min(c.max_acceleration, a + c.max_acceleration_rate * dt) * dt);
    double base = before.base_time;
    for (std::size_t i = 1; i <= n; ++i) {
      const double d = away(here, old[i].position.position);
      if (d > (v + fastest) / 2 * dt * (near / .1) + 1e-7 * (1 + d)) bad("passed-from-afar", vh::cat("waypoint ", str(old[i].position.position), " at ", d, " m"));
      if (std::isfinite(old[i].time)) {
        const double rest = (std::isfinite(base) ? base : 0) + old[i].time - s.time;
        if (rest > dt / 2 + 1e-9 or rest < -dt - 1e-9) bad("passed-untimely", vh::cat("waypoint ", str(old[i].position.position), " with ", rest, " s left"));
        if (std::isfinite(base)) base = s.time;
        vh::count("timed waypoints passed");
      } else vh::count("untimed waypoints passed");
    }
    o.popped += int(n);
    if (not(base == k.t.base_time or (std::isnan(base) and std::isnan(k.t.base_time)))) bad("base-time", vh::cat(k.t.base_time, " instead of ", base));
    // due times that have been missed are errors
    base = std::isfinite(base) ? base : 0;
    const auto & goal = now[1];
    if (not r) {
      const double d = away(here, goal.position.position);
      if (now.size() != 2) bad("finished-early", vh::cat(now.size() - 1, " waypoints left"));
      if (d > near) bad("finished-afar", vh::cat(d));
      if (std::abs(v) > 1e-9 or std::abs(a) > 1e-9) bad("finished-moving", "");
      if (std::isfinite(goal.time) and (base + goal.time - s.time > dt / 2 + 1e-9 or base + goal.time - s.time < -2 * dt - 1e-9)) bad("finished-untimely", vh::cat(base + goal.time - s.time));
      o.finished = true, o.end = s.time;
      return o;
    }
    for (std::size_t i = 1; i < now.size(); ++i) if (std::isfinite(now[i].time)) {
      if (base + now[i].time - s.time < -dt - 1e-9) bad("missed-silently", vh::cat("waypoint ", str(now[i].position.position), " due ", base + now[i].time));
      break;
    }
    const auto & q = *r;
    const double w = q.action_status.twist.linear.x, b = q.action_status.accel.linear.x;
    if (std::abs(q.time - (s.time + dt)) > 1e-9) bad("time", vh::cat(q.time));
    if (q.action_status.twist.linear.y != 0 or q.action_status.twist.linear.z != 0) bad("sideways", "");
    const double eps = 1e-7;
    if (std::abs(b - (w - v) / dt) > eps) bad("acceleration-reported", vh::cat(b, " for ", w));
    if (not(w >= -eps)) bad("backwards", vh::cat(w));
    bool timed = false;
    for (std::size_t i = 1; i < now.size(); ++i) timed |= std::isfinite(now[i].time);
    const double limit = timed or not target ? c.max_speed : *target;
    if (w > std::max(limit, v + std::max(0.0, a - c.max_deceleration_rate * dt) * dt) + c.max_deceleration_rate * dt * dt + eps) bad("speed-limit", vh::cat(w, " limit ", limit));
    if (b > c.max_acceleration + eps) bad("acceleration-limit", vh::cat(b));
    if (b < -c.max_deceleration - eps) bad("deceleration-limit", vh::cat(b));
    // within the tolerance around the last waypoint the remaining speed is braked away at once
    const bool braking = now.size() == 2 and away(here, goal.position.position) <= near;
    const bool stopping = v + (a + c.max_acceleration_rate * dt) * dt < 0;
    // standing still ends a deceleration
    if (not braking and not stopping and b > a + c.max_acceleration_rate * dt + eps) bad("jerk-limit-up", vh::cat(b));
    if (not braking and b < a - c.max_deceleration_rate * dt - eps) bad("jerk-limit-down", vh::cat(b));
    // where it went
    const double moved = away(here, q.pose.position), far = (v + w) / 2 * dt, rest = away(here, goal.position.position);
    if (std::abs(moved - std::abs(far)) > 1e-7 * (1 + far)) bad("distance-moved", vh::cat(moved, " instead of ", far));
    if (w > 1e-6 and moved > 1e-6 and rest > near) {
      const double cosine = ((q.pose.position.x - here.x) * (goal.position.position.x - here.x) + (q.pose.position.y - here.y) * (goal.position.position.y - here.y) + (q.pose.position.z - here.z) * (goal.position.position.z - here.z)) / moved / rest;
      if (cosine < 1 - 1e-6) bad("direction", vh::cat("to ", str(q.pose.position), " at ", w, " acc ", b, " for ", str(goal.position.position)));
    }
    vh::count("steps");
    k.s = q;
  }
  o.end = k.s.time;
  return o;
}
Case vehicle()
{
  Case k;
  auto & c = k.p.dynamic_constraints;
  k.dt = g->pick(std::vector<double>{.05, .05, 1. / 30, .1, .02});
  c.max_speed = g->chance(.4) ? 50 : magnitude(2, 60);
  c.max_acceleration = g->chance(.4) ? 10 : magnitude(.3, 15);
  c.max_deceleration = g->chance(.4) ? 10 : magnitude(.3, 15);
  c.max_acceleration_rate = g->chance(.4) ? 3 : magnitude(.3, 40);
  c.max_deceleration_rate = g->chance(.4) ? 3 : magnitude(.3, 40);
  k.s.time = g->chance(.5) ? 0 : k.dt * double(g->i(1, 2000));
  k.s.name = "e";
  k.s.lanelet_pose_valid = false;
  k.s.pose.orientation.w = 1;
  k.t.dynamic_constraints_ignorable = true;
  k.t.base_time = nan_;
  vlane::radius = 0;
  return k;
}
void any()
{
  auto k = vehicle();
  const auto & c = k.p.dynamic_constraints;
  if (g->chance(.2)) vlane::radius = magnitude(20, 500);
  k.s.action_status.twist.linear.x = g->chance(.4) ? 0 : g->r(0, std::min(c.max_speed, 30.0));
  // an acceleration that can be taken back before the vehicle stands or is at its limit
  const double v0 = k.s.action_status.twist.linear.x, slow = std::sqrt(v0 * c.max_acceleration_rate), fast = std::sqrt((c.max_speed - v0) * c.max_deceleration_rate);
  if (g->chance(.2)) k.s.action_status.accel.linear.x = g->r(-std::min(slow, c.max_deceleration), std::min(fast, c.max_acceleration));
  double heading = g->r(-3, 3), x = vlane::radius, y = 0, z = 0;
  k.s.pose.position.x = x + g->r(-.5, .5);
  k.t.shape.vertices.push_back(vertex(x, y, z, g->chance(.2) ? 0 : nan_));
  const bool relative = g->chance(.3), hilly = g->chance(.2);
  if (relative) k.t.base_time = k.s.time;
  double due = relative ? 0 : k.s.time, pace = magnitude(1, std::min(c.max_speed, 25.0));
  for (int i = 0, n = int(g->i(1, 5)); i < n; ++i) {
    const double d = g->chance(.1) ? magnitude(.01, 1) : magnitude(1, 120);
    heading += g->chance(.2) ? g->r(-3, 3) : g->r(-.4, .4);
    if (vlane::radius > 0) { const double th = std::atan2(y, x) + d / vlane::radius; x = (vlane::radius + g->r(-1, 1)) * std::cos(th), y = (vlane::radius + g->r(-1, 1)) * std::sin(th); }
    else x += d * std::cos(heading), y += d * std::sin(heading);
    if (hilly) z += g->r(-.2, .2) * d;
    due += d / pace * (g->chance(.2) ? g->r(.5, 4) : g->r(1, 1.6)) + (i ? 0 : g->r(0, 6));
    double time = nan_;
    if (g->chance(.5)) { time = std::round(due / k.dt) * k.dt; if (relative) due = 0; }
    k.t.shape.vertices.push_back(vertex(x, y, z, time));
  }
  k.follows_own_speed = g->chance(.1);
  if (g->chance(.7)) k.target = g->chance(.1) ? 0 : magnitude(.5, c.max_speed);
  vh::current(k.str());
  const auto o = run(k, 6000);
  vh::count(o.finished ? "finished" : o.error ? "errors" : "unfinished");
  if (o.error) { static const std::vector<std::string> kinds{"Contradictory", "Incorrect acceleration limits", "No acceleration found", "It is not possible to stop", "It is not the braking time", "penultimate", "failed to reach", "has completed a trajectory", "is immobile"}; std::string kind = o.what; for (const auto & x : kinds) if (o.what.find(x) != std::string::npos) kind = x; vh::count("error: " + kind.substr(0, 200)); };
  vh::observed(k.str());
}
// Trajectories that nothing keeps from being followed have to be.
void feasible(int kind)
{
  auto k = vehicle();
  auto & c = k.p.dynamic_constraints;
  const bool equal = kind % 2 == 0, timed = kind >= 2;
  if (equal) c.max_deceleration_rate = c.max_acceleration_rate;
  double heading = g->r(-3, 3), x = 0, y = 0, z = 0, length = 0;
  k.t.shape.vertices.push_back(vertex(x, y, z, nan_));
  const double pace = magnitude(2, std::min(c.max_speed, 20.0));
  const int n = int(g->i(1, 4));
  double due = k.s.time;
  for (int i = 0; i < n; ++i) {
    const double d = magnitude(1, 40);
    heading += g->r(-.4, .4);
    x += d * std::cos(heading), y += d * std::sin(heading), z += g->r(-.1, .1);
    length += d;
    due += d / pace;
    k.t.shape.vertices.push_back(vertex(x, y, z, nan_));
  }
  if (timed) {
    // twice what building up the pace and giving it up takes
    const double up = pace / c.max_acceleration + c.max_acceleration / c.max_acceleration_rate + std::sqrt(pace / c.max_acceleration_rate), down = pace / c.max_deceleration + c.max_deceleration / c.max_deceleration_rate + std::sqrt(pace / c.max_deceleration_rate);
    k.t.shape.vertices.back().time = std::round((due + 2 * up + 2 * down) / k.dt) * k.dt;
  } else {
    k.target = magnitude(std::min(2.0, c.max_speed), c.max_speed);
  }
  vh::current(k.str());
  const auto o = run(k, 8000);
  std::string kinds = timed ? equal ? "timed equal" : "timed unequal" : equal ? "untimed equal" : "untimed unequal";
  vh::count(kinds + (o.finished ? " finished" : o.error ? " errors" : " unfinished"));
  if (not o.finished) vh::fail(vh::cat("not-followed-", timed ? "timed" : "untimed"), k.str() + ": " + (o.error ? o.what : "not finished"));
  vh::observed("f" + k.str());
}
// What cannot be followed is refused with an error.
void hostile()
{
  auto k = vehicle();
  const double inf = std::numeric_limits<double>::infinity(), wrong = g->pick(std::vector<double>{nan_, inf, -inf});
  k.s.action_status.twist.linear.x = g->r(0, 2);
  const int n = int(g->i(2, 4));
  for (int i = 0; i < n; ++i) k.t.shape.vertices.push_back(vertex(g->r(-50, 50), g->r(-50, 50), 0, g->chance(.3) ? k.s.time + 10 + i * 20 : nan_));
  k.target = g->r(1, 10);
  std::string what;
  auto axis = [&](auto & v) -> double & { switch (g->i(0, 2)) { case 0: return v.x; case 1: return v.y; default: return v.z; } };
  switch (g->i(0, 7)) {
    case 0: k.t.shape.vertices.resize(1), what = "one vertex"; break;
    case 1: k.t.shape.vertices.clear(), what = "no vertices"; break;
    case 2: axis(k.s.pose.position) = wrong, what = "position"; break;
    case 3: axis(k.s.action_status.twist.linear) = wrong, what = "velocity"; break;
    case 4: axis(k.s.action_status.accel.linear) = wrong, what = "acceleration"; break;
    case 5: axis(k.t.shape.vertices[1].position.position) = wrong, what = "waypoint"; break;
    case 6: k.t.dynamic_constraints_ignorable = false, what = "following mode"; break;
    default: k.t.shape.vertices[1].time = k.s.time - k.dt * g->r(1.5, 100), what = "time in the past"; break;
  }
  vh::current(what + ": " + k.str());
  ::alarm(20);
  try {
    const auto r = traffic_simulator::follow_trajectory::makeUpdatedStatus(k.s, k.t, k.p, k.dt, 1.0, k.target);
    vh::fail("accepted-" + what, k.str());
  } catch (const common::Error &) {
    vh::count("refused " + what);
  }
  ::alarm(0);
  vh::observed("h" + what + k.str());
}
}  // namespace
int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  ::signal(SIGALRM, vh::on_signal);
  vh::Rng rng(vh::st().seed);
  g = &rng;
  for (std::uint64_t i = 0, n = vh::n(150, 1500); i < n; ++i) {
    any();
    if (i % 2 == 0) hostile();
    if (i % 7 == 0) feasible(int(i / 7 % 4));
  }
  vh::finish();
}
