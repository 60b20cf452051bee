// C23: planned speed changes step by step against their limits, target, and predictions.
#include "vh.hpp"
#include <algorithm>
#include <cmath>
#include <rclcpp/rclcpp.hpp>
#include <traffic_simulator/behavior/longitudinal_speed_planning.hpp>
using traffic_simulator::longitudinal_speed_planning::LongitudinalSpeedPlanner;
using Constraints = traffic_simulator_msgs::msg::DynamicConstraints;
namespace
{
vh::Rng * g;
geometry_msgs::msg::Twist twist(double v) { geometry_msgs::msg::Twist t; t.linear.x = v; return t; }
geometry_msgs::msg::Accel accel(double a) { geometry_msgs::msg::Accel t; t.linear.x = a; return t; }
double magnitude(double lo, double hi) { return std::exp(g->r(std::log(lo), std::log(hi))); }
struct Run { int steps = 0; double distance = 0, trapezoid = 0; bool reached = false; };
struct Case
{
  double dt, target, v, a;
  Constraints c;
  std::string str() const { return vh::cat("step ", dt, " target ", target, " v ", v, " a ", a, " max speed ", c.max_speed, " acc ", c.max_acceleration, " dec ", c.max_deceleration, " rates ", c.max_acceleration_rate, " ", c.max_deceleration_rate); }
};
// How many steps the change can need at most.
double bound(const Case & k)
{
  const double target = std::clamp(k.target, -k.c.max_speed, k.c.max_speed), d = std::abs(target - k.v);
  const bool up = k.v <= target;
  const double m = up ? k.c.max_acceleration : k.c.max_deceleration, r = up ? k.c.max_acceleration_rate : k.c.max_deceleration_rate;
  return (m / r + d / m) / k.dt + 4;
}
Run run(const Case & k, bool judge, const std::string & what, double tolerance = 0)
{
  const LongitudinalSpeedPlanner p(k.dt, "e");
  const double target = std::clamp(k.target, -k.c.max_speed, k.c.max_speed);
  auto t = twist(k.v);
  auto a = accel(k.a);
  Run r;
  const int most = int(std::min(bound(k), 1e9));
  const double eps = 1e-9 * (1 + std::abs(k.v) + std::abs(target)), aeps = 1e-9 + 4 * eps / k.dt;
  auto bad = [&](const char * key, const std::string & d) { vh::fail(key, what + k.str() + vh::cat(", step ", r.steps, ": ", d)); };
  while (std::abs(t.linear.x - target) > std::max(eps, tolerance)) {
    if (r.steps > most) { if (judge) bad("target-not-reached", vh::cat("speed ", t.linear.x)); return r; }
    const bool up = t.linear.x <= target;
    const auto [t2, a2, jerk] = p.getDynamicStates(k.target, k.c, t, a);
    const double v = t.linear.x, w = t2.linear.x, b = a2.linear.x;
    ++r.steps;
    if (judge) {
      if (not(std::abs(w) <= k.c.max_speed + eps)) bad("speed-limit", vh::cat(w));
      if (up ? w > target + eps or w < v - eps : w < target - eps or w > v + eps) bad("overshoot", vh::cat("from ", v, " to ", w));
      if (b > k.c.max_acceleration + aeps or b < -k.c.max_deceleration - aeps) bad("acceleration-limit", vh::cat(b));
      if (std::abs(b - (w - v) / k.dt) > aeps) bad("acceleration-reported", vh::cat(b, " from ", v, " to ", w));
      if (std::abs(jerk - (b - a.linear.x) / k.dt) > 1e-6 + aeps / k.dt) bad("jerk-reported", vh::cat(jerk, " from ", a.linear.x, " to ", b));
      // the change builds up no faster than the limit (it may be given up at once)
      if (up ? b > std::max(0.0, a.linear.x + k.c.max_acceleration_rate * k.dt) + aeps : b < std::min(0.0, a.linear.x - k.c.max_deceleration_rate * k.dt) - aeps) bad("jerk-limit", vh::cat("acceleration ", a.linear.x, " to ", b));
      // and no slower than needed: unless a limit or the target stops it, the jerk limit is used
      const double full = up ? std::max(0.0, std::min({a.linear.x + k.c.max_acceleration_rate * k.dt, k.c.max_acceleration, (target - v) / k.dt})) : std::min(0.0, std::max({a.linear.x - k.c.max_deceleration_rate * k.dt, -k.c.max_deceleration, (target - v) / k.dt}));
      if (std::abs(b - full) > aeps) bad("not-the-planned-step", vh::cat("acceleration ", b, ", possible ", full));
    }
    r.trapezoid += (v + w) / 2 * k.dt;
    t = t2, a = a2;
  }
  r.reached = true;
  if (judge) {
    // at the target it stays
    for (int i = 0; i < 3; ++i) {
      const auto [t2, a2, jerk] = p.getDynamicStates(k.target, k.c, t, a);
      if (std::abs(t2.linear.x - target) > std::max(eps, tolerance)) bad("target-left", vh::cat(t2.linear.x));
      t = t2, a = a2;
    }
  }
  return r;
}
Case draw()
{
  Case k;
  k.dt = g->chance(.5) ? g->pick(std::vector<double>{.05, .1, 1. / 30, .02}) : magnitude(.005, .2);
  k.c.max_speed = g->chance(.2) ? 50 : magnitude(.5, 70);
  k.c.max_acceleration = g->chance(.1) ? 10 : magnitude(.05, 20);
  k.c.max_deceleration = g->chance(.1) ? 10 : magnitude(.05, 20);
  k.c.max_acceleration_rate = g->chance(.1) ? 3 : magnitude(.05, 50);
  k.c.max_deceleration_rate = g->chance(.1) ? 3 : magnitude(.05, 50);
  auto speed = [&] { switch (g->i(0, 9)) { case 0: return 0.0; case 1: return k.c.max_speed; case 2: return -k.c.max_speed; case 3: return g->r(-k.c.max_speed, k.c.max_speed); default: return g->r(0, k.c.max_speed); } };
  k.v = speed();
  k.target = g->chance(.07) ? (g->chance(.7) ? 1 : -1) * k.c.max_speed * g->r(1, 3) : g->chance(.1) ? k.v + g->r(-.1, .1) : speed();
  k.a = g->chance(.3) ? 0 : g->r(-k.c.max_deceleration, k.c.max_acceleration);
  return k;
}
// Only changes that need no more steps than a check can take.
Case random_case()
{
  for (;;) if (const auto k = draw(); bound(k) < 1e5) return k;
}
void steps()
{
  const auto k = random_case();
  vh::current(k.str());
  const auto r = run(k, true, "");
  vh::count("planned steps", r.steps);
  vh::observed(k.str());
  if (std::abs(k.target) > k.c.max_speed) vh::count("targets beyond the limit");
}
void distance()
{
  const auto k = random_case();
  vh::current("distance " + k.str());
  const double target = std::clamp(k.target, -k.c.max_speed, k.c.max_speed);
  const LongitudinalSpeedPlanner p(k.dt, "e");
  ::alarm(20);
  const double got = p.getRunningDistance(k.target, k.c, twist(k.v), accel(k.a), 0);
  ::alarm(0);
  if (std::abs(k.v - target) <= .0099) { if (got != 0) vh::fail("distance-at-target", k.str() + vh::cat(": ", got)); return; }
  const auto r = run(k, false, "", .01);
  if (not r.reached) return;
  // the sum over steps may differ from the path by how the last step is counted
  const double slack = k.dt * std::abs(target - k.v) + k.dt * k.dt * (k.c.max_acceleration + k.c.max_deceleration) + .011 * k.dt + 1e-9 * (1 + std::abs(got)) + k.dt * std::max(std::abs(k.v), std::abs(target)) * (std::abs(std::abs(k.v - target) - .01) < 1e-3);
  if (std::abs(got - r.trapezoid) > slack) vh::fail("distance-differs", k.str() + vh::cat(": predicted ", got, ", stepped ", r.trapezoid));
  vh::count("distances");
  vh::observed("d" + k.str());
}
void duration()
{
  auto k = random_case();
  k.target = std::clamp(k.target, -k.c.max_speed, k.c.max_speed);
  const bool up = k.v <= k.target;
  if (up ? k.a < 0 : k.a > 0) k.a = -k.a * (up ? std::min(1.0, k.c.max_acceleration / k.c.max_deceleration) : std::min(1.0, k.c.max_deceleration / k.c.max_acceleration));
  if (std::abs(k.target - k.v) < .05) return;
  vh::current("duration " + k.str());
  const LongitudinalSpeedPlanner p(k.dt, "e");
  const double got = p.getAccelerationDuration(k.target, k.c, twist(k.v), accel(k.a));
  const auto r = run(k, false, "");
  if (not r.reached) return;
  // a linear phase is left out of the prediction when it starts within 0.01 of the target
  const double m = up ? k.c.max_acceleration : k.c.max_deceleration, slack = 2.5 * k.dt + .011 / m;
  if (not(std::abs(got - r.steps * k.dt) <= slack)) vh::fail(up ? "duration-accelerating" : "duration-decelerating", k.str() + vh::cat(": predicted ", got, ", stepped ", r.steps * k.dt));
  vh::count("durations");
  vh::observed("t" + k.str());
}
void planned()
{
  auto k = random_case();
  k.target = std::clamp(k.target, -k.c.max_speed, k.c.max_speed);
  const bool up = k.v <= k.target;
  const double d = std::abs(k.target - k.v), sign = up ? 1 : -1;
  if (d < .2) return;
  const double rate = up ? k.c.max_acceleration_rate : k.c.max_deceleration_rate, most = up ? k.c.max_acceleration : k.c.max_deceleration;
  if (g->chance(.5)) k.a = 0;
  else k.a = sign * g->r(0, most);
  LongitudinalSpeedPlanner p(k.dt, "e");
  const double T = magnitude(20 * k.dt, 60), a0 = sign * k.a;
  if (a0 * T > .9 * d) return;   // already changing too fast: what to do is not determined
  vh::current(vh::cat("plan ", T, " ", k.str()));
  // does a change with the jerk limit reach the target in time at all?
  const double fastest = a0 * T + rate * T * T / 2;
  Constraints c;
  try {
    c = p.planConstraintsFromJerkAndTimeConstraint(k.target, twist(k.v), accel(k.a), T, k.c);
  } catch (const std::exception & e) {
    if (fastest > d * 1.02) vh::fail("plan-refused", k.str() + vh::cat(" in ", T, ": ", e.what()));
    vh::count("plans refused");
    return;
  }
  Case q = k;
  q.c = c;
  for (double x : {c.max_acceleration, c.max_deceleration, c.max_acceleration_rate, c.max_deceleration_rate}) if (not(x > 0)) { vh::fail("plan-invalid", vh::cat("in ", T, " ", q.str(), " from ", k.str())); return; }
  // beyond the acceleration limit a raised jerk does not help: not judged
  if (up ? c.max_acceleration_rate > rate * 1.0001 and a0 + c.max_acceleration_rate * T > c.max_acceleration * .999 : c.max_deceleration_rate > rate * 1.0001 and a0 + c.max_deceleration_rate * T > c.max_deceleration * .999) { vh::count("plans beyond the limits"); return; }
  const auto r = run(q, true, vh::cat("planned for ", T, " s: "));
  const double m = up ? c.max_acceleration : c.max_deceleration;
  // the target may be reached during the last steps of the ramp already
  if (not r.reached or std::abs(r.steps * k.dt - T) > 3.5 * k.dt + T * .02) {
    vh::fail(up ? "plan-accelerating" : "plan-decelerating", k.str() + vh::cat(": planned for ", T, " s, stepped ", r.steps * k.dt, " with limit ", m));
  }
  vh::count("plans stepped");
  vh::observed("p" + k.str());
}
}  // namespace
int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng rng(vh::st().seed);
  g = &rng;
  ::signal(SIGALRM, vh::on_signal);
  for (std::uint64_t i = 0, n = vh::n(6000, 100000); i < n; ++i) { steps(); distance(); duration(); planned(); }
  vh::finish();
}
