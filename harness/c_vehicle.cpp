// C22: vehicle models stepped with random command histories; each step is judged by the limits,
// the command log (delays), the gear, and the motion computed here in long double from the
// model's documented equations.
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <limits>
#include <memory>
#include <simple_sensor_simulator/vehicle_simulation/vehicle_model/sim_model.hpp>

#include "vh.hpp"
using namespace vh;
using L = long double;
using Gear = autoware_vehicle_msgs::msg::GearCommand;
using WoFallGuard = autoware::simulator::simple_planning_simulator::SimModelDelaySteerAccGearedWoFallGuard;

enum Kind { ISV, ISA, ISAG, DSV, DSA, DSAG, DSMAG, WOFG, KINDS };
const char * names[] = {"ideal_steer_vel", "ideal_steer_acc", "ideal_steer_acc_geared", "delay_steer_vel", "delay_steer_acc",
  "delay_steer_acc_geared", "delay_steer_map_acc_geared", "delay_steer_acc_geared_wo_fall_guard"};

struct Parameters
{
  Kind kind;
  double v_lim, steer_lim, rate_lim, steer_rate_lim, wheelbase, dt, delay, tau, steer_delay, steer_tau, dead_band, bias, scale, steer_scale;
  // the acceleration map: rows by commanded acceleration, columns by speed
  std::vector<double> map_v, map_a;
  std::vector<std::vector<double>> map;
};

bool forward_gear(int g) { return (g >= Gear::DRIVE && g <= Gear::DRIVE_18) || g == Gear::LOW || g == Gear::LOW_2; }
bool reverse_gear(int g) { return g == Gear::REVERSE || g == Gear::REVERSE_2; }

std::string csv;

std::shared_ptr<SimModelInterface> make(const Parameters & p)
{
  switch (p.kind) {
    case ISV: return std::make_shared<SimModelIdealSteerVel>(p.wheelbase);
    case ISA: return std::make_shared<SimModelIdealSteerAcc>(p.wheelbase);
    case ISAG: return std::make_shared<SimModelIdealSteerAccGeared>(p.wheelbase);
    case DSV: return std::make_shared<SimModelDelaySteerVel>(p.v_lim, p.steer_lim, p.rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.delay, p.tau, p.steer_delay, p.steer_tau, p.dead_band);
    case DSA: return std::make_shared<SimModelDelaySteerAcc>(p.v_lim, p.steer_lim, p.rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.delay, p.tau, p.steer_delay, p.steer_tau, p.dead_band, p.scale, p.steer_scale);
    case DSAG: return std::make_shared<SimModelDelaySteerAccGeared>(p.v_lim, p.steer_lim, p.rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.delay, p.tau, p.steer_delay, p.steer_tau, p.dead_band, p.scale, p.steer_scale);
    case DSMAG: return std::make_shared<SimModelDelaySteerMapAccGeared>(p.v_lim, p.steer_lim, p.rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.delay, p.tau, p.steer_delay, p.steer_tau, csv);
    default: return std::make_shared<WoFallGuard>(p.v_lim, p.steer_lim, p.rate_lim, p.steer_rate_lim, p.wheelbase, p.dt, p.delay, p.tau, p.steer_delay, p.steer_tau, p.dead_band, p.bias, p.scale, p.steer_scale);
  }
}

// What a step is given, and what is seen after it.
struct Command { double drive, steer; int gear; double slope; };
struct Seen { double x, y, yaw, v, a, steer, wz, vy; };
Seen look(SimModelInterface & m) { return {m.getX(), m.getY(), m.getYaw(), m.getVx(), m.getAx(), m.getSteer(), m.getWz(), m.getVy()}; }

// The documented model, one step from a state (x y yaw v steer a pedal) in long double.
using S = std::array<L, 7>;
L clamp(L v, L lo, L hi) { return v < lo ? lo : v > hi ? hi : v; }
L interpolate(const std::vector<double> & k, const std::vector<L> & v, L q)
{
  q = clamp(q, k.front(), k.back());
  std::size_t i = 0;
  while (i + 2 < k.size() && k[i + 1] < q) ++i;
  return v[i] + (v[i + 1] - v[i]) * (q - k[i]) / (k[i + 1] - k[i]);
}
S rate(const Parameters & p, const S & s, const Command & c)
{
  S d{};
  const L yaw = s[2];
  const bool delayed = p.kind >= DSV;
  L v = p.kind == ISV ? L(c.drive) : s[3];
  L steer = delayed ? s[4] : L(c.steer);
  const L tau = std::max(p.tau, 0.03), steer_tau = std::max(p.steer_tau, 0.03);
  if (delayed) v = clamp(v, -p.v_lim, p.v_lim);
  if (p.kind == DSV) steer = clamp(steer, -p.steer_lim, p.steer_lim);
  d[0] = v * std::cos(yaw);
  d[1] = v * std::sin(yaw);
  d[2] = v * std::tan(steer) / p.wheelbase;
  if (p.kind == ISA || p.kind == ISAG) d[3] = c.drive;
  if (!delayed) return d;
  const bool scaled = p.kind == DSA || p.kind == DSAG || p.kind == WOFG;
  const L wanted = clamp(c.steer, -p.steer_lim, p.steer_lim) * (scaled ? std::max(p.steer_scale, 0.0) : 1);
  L off = steer + (p.kind == WOFG ? p.bias : 0) - wanted;
  const L band = p.kind == DSMAG ? 0 : p.dead_band;
  off = off > band ? off - band : off < -band ? off + band : 0;
  d[4] = clamp(-off / steer_tau, -p.steer_rate_lim, p.steer_rate_lim);
  if (p.kind == DSV) {
    d[3] = clamp(-(v - clamp(c.drive, -p.v_lim, p.v_lim)) / tau, -p.rate_lim, p.rate_lim);
    return d;
  }
  L target = clamp(c.drive, -p.rate_lim, p.rate_lim) * (scaled ? std::max(p.scale, 0.0) : 1);
  if (p.kind == DSMAG && !p.map.empty()) {
    std::vector<L> column;
    for (auto & row : p.map) column.push_back(interpolate(p.map_v, std::vector<L>(row.begin(), row.end()), v));
    target = interpolate(p.map_a, column, target);
  }
  if (p.kind != WOFG) {
    const L a = clamp(s[5], -p.rate_lim, p.rate_lim);
    d[3] = a;
    d[5] = -(a - target) / tau;
  } else {
    const L pedal = clamp(s[6], -p.rate_lim, p.rate_lim);
    d[6] = -(pedal - target) / tau;
    if (pedal >= 0)
      d[3] = c.gear == Gear::NONE || c.gear == Gear::PARK ? 0 : c.gear == Gear::NEUTRAL ? L(c.slope)
        : reverse_gear(c.gear) ? -pedal + c.slope : pedal + c.slope;
    else if (v > 0) d[3] = pedal + c.slope;
    else if (v < 0) d[3] = -pedal + c.slope;
    else d[3] = -pedal >= std::abs(c.slope) ? 0 : c.slope;
  }
  return d;
}
S step(const Parameters & p, const S & s, const Command & c)
{
  auto add = [](S a, const S & b, L k) { for (int i = 0; i < 7; ++i) a[i] += b[i] * k; return a; };
  const L dt = p.dt;
  S n;
  if (p.kind == WOFG) n = add(s, rate(p, s, c), dt);
  else {
    const S a = rate(p, s, c), b = rate(p, add(s, a, dt / 2), c), e = rate(p, add(s, b, dt / 2), c), f = rate(p, add(s, e, dt), c);
    n = s;
    for (int i = 0; i < 7; ++i) n[i] += (a[i] + 2 * b[i] + 2 * e[i] + f[i]) * dt / 6;
  }
  if (p.kind == ISV) { n[5] = (c.drive - s[3]) / dt; n[3] = c.drive; n[4] = c.steer; return n; }
  if (p.kind == ISA) { n[5] = c.drive; n[4] = c.steer; return n; }
  if (p.kind == DSV) { n[5] = (n[3] - s[3]) / dt; return n; }
  if (p.kind == ISAG) n[4] = c.steer;
  else n[3] = clamp(n[3], -p.v_lim, p.v_lim);
  if (p.kind == WOFG) {
    if (s[3] * n[3] <= 0 && -n[6] >= std::abs(c.slope)) n[3] = 0;
    n[5] = (n[3] - s[3]) / dt;
  } else if (p.kind == ISAG || p.kind == DSAG || p.kind == DSMAG) {
    const bool stop = forward_gear(c.gear) ? n[3] < 0 : reverse_gear(c.gear) ? n[3] > 0 : true;
    if (stop) {
      n[0] = s[0]; n[1] = s[1]; n[2] = s[2]; n[3] = 0;
      n[5] = -s[3] / dt;
    }
    if (p.kind == ISAG) n[5] = (n[3] - s[3]) / dt;
  }
  return n;
}

void run(Rng & r, int index)
{
  Parameters p;
  p.kind = Kind(r.i(0, KINDS - 1));
  p.v_lim = r.r(1, 60);
  p.steer_lim = r.r(0.1, 1.2);
  p.rate_lim = r.r(0.5, 12);
  p.steer_rate_lim = r.chance(0.3) ? r.r(0.01, 0.3) : r.r(0.3, 6);
  p.wheelbase = r.r(0.8, 6);
  p.dt = r.pick(std::vector<double>{1.0 / 30, 0.01, 0.02, 0.05, 1.0 / 60});
  p.delay = r.chance(0.3) ? 0 : p.dt * double(r.i(1, 12));
  p.steer_delay = r.chance(0.3) ? 0 : p.dt * double(r.i(1, 12));
  p.tau = r.chance(0.2) ? 0 : r.r(0.03, 0.6);
  p.steer_tau = r.chance(0.2) ? 0.01 : r.r(0.03, 0.6);
  p.dead_band = r.chance(0.5) ? 0 : r.r(0, 0.05);
  if (p.kind == WOFG) {  // explicit integration: a time constant below the step would overshoot by design
    p.tau = std::max(p.tau, p.dt);
    p.steer_tau = std::max(p.steer_tau, p.dt);
  }
  p.bias = p.kind == WOFG && r.chance(0.5) ? r.r(-0.05, 0.05) : 0;
  p.scale = r.chance(0.6) ? 1 : r.chance(0.1) ? -1 : r.r(0, 1.5);
  p.steer_scale = r.chance(0.6) ? 1 : r.r(0, 1.0);
  bool mapped = false;
  if (p.kind == DSMAG) {
    std::ofstream f(csv);
    if (r.chance(0.8)) {
      mapped = true;
      double v = 0, a = -r.r(1, 8);
      for (int i = 0, n = int(r.i(2, 6)); i < n; ++i, v += r.r(0.5, 10)) p.map_v.push_back(v);
      for (int i = 0, n = int(r.i(2, 6)); i < n; ++i, a += r.r(0.3, 3)) p.map_a.push_back(a);
      f << "default";
      f.precision(17);
      for (double x : p.map_v) f << "," << x;
      f << "\n";
      for (double x : p.map_a) {
        f << x;
        p.map.emplace_back();
        for (std::size_t i = 0; i < p.map_v.size(); ++i) f << "," << (p.map.back().push_back(x * r.r(0.3, 1.2)), p.map.back().back());
        f << "\n";
      }
    } else f << "";
  }
  const std::string who = names[p.kind];
  std::string story = cat(who, ": v_lim ", p.v_lim, " steer_lim ", p.steer_lim, " rate_lim ", p.rate_lim, " steer_rate_lim ", p.steer_rate_lim,
    " wheelbase ", p.wheelbase, " dt ", p.dt, " delay ", p.delay, " tau ", p.tau, " steer delay ", p.steer_delay, " steer tau ", p.steer_tau,
    " dead band ", p.dead_band, " bias ", p.bias, " scale ", p.scale, "/", p.steer_scale, mapped ? " with map" : "");
  current(story);
  const auto model = make(p), twin = make(p);
  for (auto * m : {model.get(), twin.get()})
    for (double x : {m->getX(), m->getY(), m->getYaw(), m->getVx(), m->getVy()})
      if (x != 0) { fail("initial-state-" + who, story); return; }

  // somewhere on the map, at some speed
  S truth{};
  const int dims = model->getDimX();
  if (r.chance(0.8)) {
    truth = {L(r.r(-1e4, 1e4)), L(r.r(-1e4, 1e4)), L(r.r(-3.2, 3.2)), L(r.chance(0.3) ? 0 : r.r(-p.v_lim, p.v_lim)), L(r.r(-p.steer_lim, p.steer_lim)),
      L(r.chance(0.5) ? 0 : r.r(-p.rate_lim, p.rate_lim)), L(r.chance(0.5) ? 0 : r.r(-p.rate_lim, p.rate_lim))};
    Eigen::VectorXd v(dims), back(dims);
    for (int i = 0; i < dims; ++i) v(i) = double(truth[i]);
    for (int i = 0; i < 7; ++i) truth[i] = double(truth[i]);
    for (int i = dims; i < 7; ++i) truth[i] = 0;
    model->setState(v);
    twin->setState(v);
    model->getState(back);
    if (back != v) { fail("state-not-kept-" + who, story); return; }
  }
  if (p.kind == ISV) truth[3] = 0;

  std::vector<Command> log;
  Command c{0, 0, Gear::DRIVE, 0};
  int gear = Gear::DRIVE, kept = 0;
  const int steps = int(r.i(20, 200));
  std::vector<int> forwards, others = {Gear::NEUTRAL, Gear::PARK, Gear::NONE, 200};
  for (int g = 0; g < 60; ++g) if (forward_gear(g)) forwards.push_back(g);
  const std::size_t wait = p.kind >= DSV ? std::size_t(std::llround(p.delay / p.dt)) : 0;
  const std::size_t steer_wait = p.kind >= DSV ? std::size_t(std::llround(p.steer_delay / p.dt)) : 0;
  double fastest = 0, turned = 0;
  for (int i = 0; i < steps; ++i) {
    if (kept-- <= 0) {
      kept = int(r.i(0, 25));
      const double reach = p.kind == ISV || p.kind == DSV ? p.v_lim : p.rate_lim;
      c.drive = r.chance(0.15) ? 0 : r.chance(0.1) ? 100 * reach * (r.chance(0.5) ? 1 : -1) : r.r(-1.3 * reach, 1.3 * reach);
      c.steer = r.chance(0.2) ? 0 : r.chance(0.1) ? (r.chance(0.5) ? 1.4 : -1.4) : r.r(-1.2 * p.steer_lim, 1.2 * p.steer_lim);
      c.slope = r.chance(0.5) ? 0 : r.r(-2, 2);
      if (r.chance(0.4)) gear = r.chance(0.5) ? r.pick(forwards) : r.chance(0.6) ? (r.chance(0.5) ? Gear::REVERSE : Gear::REVERSE_2) : r.pick(others);
    }
    c.gear = gear;
    log.push_back(c);
    for (auto * m : {model.get(), twin.get()}) {
      m->setGear(std::uint8_t(gear));
      if (m->getGear() != gear) { fail("gear-not-kept-" + who, story); return; }
      Eigen::VectorXd u(m->getDimU()), back(m->getDimU());
      if (p.kind == WOFG) u << c.drive, double(gear), c.slope, c.steer; else u << c.drive, c.steer;
      m->setInput(u);
      m->getInput(back);
      if (back != u) { fail("input-not-kept-" + who, story); return; }
    }
    Command due = c;
    due.drive = log.size() > wait ? log[log.size() - 1 - wait].drive : 0;
    due.steer = log.size() > steer_wait ? log[log.size() - 1 - steer_wait].steer : 0;
    const S before = truth;
    const S after = step(p, before, due);
    current(cat(story, "\nstep ", i, " drive ", c.drive, " steer ", c.steer, " gear ", gear, " slope ", c.slope));
    model->update(p.dt);
    twin->update(p.dt);
    const Seen s = look(*model), t = look(*twin);
    auto tell = [&](const std::string & key, const std::string & what) {
      fail(key + "-" + who, cat(what, "\nstep ", i, ": commanded ", c.drive, " ", c.steer, " gear ", gear, " slope ", c.slope, "; due ", due.drive, " ", due.steer,
        "\nfrom x ", before[0], " y ", before[1], " yaw ", before[2], " v ", before[3], " steer ", before[4], " a ", before[5],
        "\nseen x ", s.x, " y ", s.y, " yaw ", s.yaw, " v ", s.v, " steer ", s.steer, " a ", s.a,
        "\nexpected x ", after[0], " y ", after[1], " yaw ", after[2], " v ", after[3], " steer ", after[4], " a ", after[5], "\n", story));
    };
    count("steps");
    if (std::memcmp(&s, &t, sizeof s)) { tell("not-reproducible", "two models given the same inputs differ"); return; }
    for (double x : {s.x, s.y, s.yaw, s.v, s.a, s.steer, s.wz}) if (!std::isfinite(x)) { tell("not-finite", "a value is not finite"); return; }
    if (s.vy != 0) tell("lateral", "a bicycle model reports lateral speed");
    // limits
    const double eps = 1e-9;
    if (p.kind >= DSV) {
      if (std::abs(s.v) > p.v_lim + eps) { tell("speed-limit", "the speed limit is exceeded"); return; }
      if (std::abs(s.steer - p.bias) > p.steer_lim + std::abs(p.bias) + p.dead_band + eps) { tell("steer-limit", "the steering limit is exceeded"); return; }
      if (std::abs(s.steer - p.bias - double(before[4])) > p.steer_rate_lim * p.dt + eps) { tell("steer-rate-limit", "the steering rate limit is exceeded"); return; }
      // stopping by the gear is immediate by design; otherwise the speed changes within the limit
      const double slack = p.kind == WOFG ? std::abs(c.slope) * p.dt : 0;
      if (std::abs(s.v - double(before[3])) > p.rate_lim * p.dt + slack + eps && s.v != 0) { tell("acceleration-limit", "the speed changes faster than the limit"); return; }
    }
    // gears
    if (p.kind == ISAG || p.kind == DSAG || p.kind == DSMAG) {
      const double along = (s.x - double(before[0])) * std::cos(double(before[2])) + (s.y - double(before[1])) * std::sin(double(before[2]));
      if (forward_gear(gear)) {
        if (s.v < 0) { tell("rolls-backward", "moves backward in a forward gear"); return; }
        if (before[3] >= 0 && std::abs(s.yaw - double(before[2])) < 0.5 && along < -eps) { tell("rolls-backward", "is carried backward in a forward gear"); return; }
        count("forward steps");
      } else if (reverse_gear(gear)) {
        if (s.v > 0) { tell("rolls-forward", "moves forward in reverse"); return; }
        count("reverse steps");
      } else {
        if (s.v != 0 || s.x != double(before[0]) || s.y != double(before[1])) { tell("parked-moves", "moves without a driving gear"); return; }
        count("parked steps");
      }
    }
    // the documented motion
    auto near = [](double a, L b, double tol) { return std::abs(L(a) - b) <= tol; };
    const double place = 1e-9 * (1 + std::abs(s.x) + std::abs(s.y));
    if (!near(s.x, after[0], place) || !near(s.y, after[1], place)) { tell("position", "the position does not advance as speed and heading say"); return; }
    if (!near(s.yaw, after[2], 1e-9 * (1 + std::abs(s.yaw)))) { tell("heading", "the heading does not advance as the steering says"); return; }
    if (!near(s.v, after[3], 1e-9)) { tell("speed", "the speed does not follow the command"); return; }
    if (!near(s.steer - p.bias, after[4], 1e-9)) { tell("steer", "the steering does not follow the command"); return; }
    if (!near(s.a, after[5], 1e-6)) { tell("acceleration", "the acceleration does not follow the command"); return; }
    if (!near(s.wz, after[3] * std::tan(after[4]) / p.wheelbase, 1e-8 * (1 + std::abs(s.wz)))) { tell("yaw-rate", "the yaw rate does not follow from speed and steering"); return; }
    // continue from what the model reports, so that rounding does not accumulate
    Eigen::VectorXd v(dims);
    model->getState(v);
    truth = after;
    for (int k = 0; k < dims; ++k) truth[k] = v(k);
    if (p.kind == ISV) truth[3] = s.v;
    fastest = std::max(fastest, std::abs(s.v));
    turned = std::max(turned, std::abs(s.steer));
  }
  if (fastest == p.v_lim) count("histories reaching the speed limit");
  count("histories of " + who);
  if (mapped) count("histories with an acceleration map");
  observed(cat(story, steps, fastest, turned));
  if (index < 8) sample(cat(who, ": ", steps, " steps of ", p.dt, " s, fastest ", fastest, " m/s, steering up to ", turned));
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  csv = st().out + ".map.csv";
  for (int i = 0, n = int(vh::n(3000, 200000)); i < n; ++i) run(r, i);
  ::unlink(csv.c_str());
  finish();
}
