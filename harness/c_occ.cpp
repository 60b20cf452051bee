// C21: occupancy grids against the plane geometry of the obstacles.
#include "vh.hpp"
#include <algorithm>
#include <cmath>
#include <nav_msgs/msg/occupancy_grid.hpp>
#include <rclcpp/rclcpp.hpp>
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_builder.hpp>
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/occupancy_grid_sensor.hpp>
#include <simulation_interface/conversions.hpp>
using namespace simple_sensor_simulator;
namespace
{
vh::Rng * g;
struct P { double x, y; };
using Poly = std::vector<P>;
struct Rot { double m[3][3]; };
Rot rot(double w, double x, double y, double z)
{
  return {{{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)},
           {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)},
           {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}}};
}
Poly hull(Poly p)
{
  std::sort(p.begin(), p.end(), [](const P & a, const P & b) { return a.x < b.x or (a.x == b.x and a.y < b.y); });
  Poly h(2 * p.size());
  std::size_t k = 0;
  auto turn = [](const P & o, const P & a, const P & b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); };
  for (std::size_t i = 0; i < p.size(); ++i) { while (k >= 2 and turn(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
  for (std::size_t i = p.size() - 1, t = k + 1; i > 0; --i) { while (k >= t and turn(h[k - 2], h[k - 1], p[i - 1]) <= 0) --k; h[k++] = p[i - 1]; }
  h.resize(k > 1 ? k - 1 : k);
  return h;
}
// how far two convex polygons (counter-clockwise) are apart along the best separating axis; negative: they overlap by that much
double gap(const Poly & a, const Poly & b)
{
  double best = -1e300;
  for (int side = 0; side < 2; ++side) {
    const Poly &s = side ? b : a, &o = side ? a : b;
    for (std::size_t i = 0; i < s.size(); ++i) {
      const P &p = s[i], &q = s[(i + 1) % s.size()];
      double nx = q.y - p.y, ny = p.x - q.x;
      const double l = std::hypot(nx, ny);
      if (l == 0) continue;
      nx /= l, ny /= l;
      double d = 1e300;
      for (auto & r : o) d = std::min(d, (r.x - p.x) * nx + (r.y - p.y) * ny);
      best = std::max(best, d);
    }
  }
  return best;
}
struct Obstacle { double l, w, h; geometry_msgs::msg::Pose pose; std::string text; };
geometry_msgs::msg::Quaternion turned(double yaw, double pitch, double roll)
{
  const double a = yaw / 2, b = pitch / 2, c = roll / 2;
  geometry_msgs::msg::Quaternion q;
  q.w = std::cos(a) * std::cos(b) * std::cos(c) + std::sin(a) * std::sin(b) * std::sin(c);
  q.x = std::cos(a) * std::cos(b) * std::sin(c) - std::sin(a) * std::sin(b) * std::cos(c);
  q.y = std::cos(a) * std::sin(b) * std::cos(c) + std::sin(a) * std::cos(b) * std::sin(c);
  q.z = std::sin(a) * std::cos(b) * std::cos(c) - std::cos(a) * std::sin(b) * std::sin(c);
  return q;
}
// the ground an obstacle covers, seen from a sensor
Poly footprint(const Obstacle & o, const geometry_msgs::msg::Pose & sensor)
{
  const auto & q = o.pose.orientation;
  const auto & s = sensor.orientation;
  const Rot r = rot(q.w, q.x, q.y, q.z), t = rot(s.w, s.x, s.y, s.z);
  Poly p;
  for (int k = 0; k < 8; ++k) {
    const double v[3] = {(k & 1 ? .5 : -.5) * o.l, (k & 2 ? .5 : -.5) * o.w, (k & 4 ? .5 : -.5) * o.h};
    double u[3] = {o.pose.position.x, o.pose.position.y, o.pose.position.z}, x[2] = {0, 0};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) u[i] += r.m[i][j] * v[j];
    u[0] -= sensor.position.x, u[1] -= sensor.position.y, u[2] -= sensor.position.z;
    // the convex hull of an obstacle drops heights before it is seen from the sensor
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) x[i] += t.m[j][i] * u[j];
    p.push_back({x[0], x[1]});
  }
  return hull(p);
}
enum { FREE = 1, HIDDEN = 2, TAKEN = 4 };
// which values a cell may have
int allowed(const Poly & cell, const std::vector<Poly> & obstacles, double eps)
{
  Poly seen = cell;
  seen.push_back({0, 0});
  seen = hull(seen);
  bool surely_taken = false, maybe_taken = false, surely_hidden = false, maybe_hidden = false;
  for (auto & o : obstacles) {
    const double d = gap(cell, o), e = gap(seen, o);
    if (d < -eps) surely_taken = true;
    if (d < eps) maybe_taken = true;
    if (e < -eps) surely_hidden = true;
    if (e < eps) maybe_hidden = true;
  }
  if (surely_taken) return TAKEN;
  int r = maybe_taken ? TAKEN : 0;
  if (maybe_hidden) r |= HIDDEN;
  if (not surely_hidden) r |= FREE;
  return r;
}
struct World { double resolution; std::size_t rows, cols; int taken = 100, hidden = 50; geometry_msgs::msg::Pose sensor; std::vector<Obstacle> obstacles; };
std::string show(const World & w)
{
  std::string s = vh::cat(w.rows, " rows, ", w.cols, " columns of ", w.resolution, " m; sensor ", w.sensor.position.x, ",", w.sensor.position.y, ";");
  for (auto & o : w.obstacles) s += " [" + o.text + "]";
  return s;
}
// compare a grid with what is there; `left`, `bottom`: the corner of the grid as seen from the sensor
void judge(const World & w, const std::vector<std::int8_t> & grid, double left, double bottom, const char * kind)
{
  if (grid.size() != w.rows * w.cols) { vh::fail(vh::cat(kind, "-size"), show(w)); return; }
  std::vector<Poly> polys;
  for (auto & o : w.obstacles) polys.push_back(footprint(o, w.sensor));
  // obstacles are held in single precision
  double far = std::fabs(w.sensor.position.x) + std::fabs(w.sensor.position.y);
  for (auto & o : w.obstacles) far = std::max(far, std::fabs(o.pose.position.x) + std::fabs(o.pose.position.y) + o.l + o.w);
  const double eps = far * 4e-7 + 1e-6;
  std::uint64_t n[3] = {0, 0, 0}, either = 0;
  for (std::size_t row = 0; row < w.rows; ++row)
    for (std::size_t col = 0; col < w.cols; ++col) {
      const double x = left + double(col) * w.resolution, y = bottom + double(row) * w.resolution;
      const int may = allowed({{x, y}, {x + w.resolution, y}, {x + w.resolution, y + w.resolution}, {x, y + w.resolution}}, polys, eps);
      const int v = grid[row * w.cols + col];
      const int is = v == w.taken ? TAKEN : v == w.hidden ? HIDDEN : v == 0 ? FREE : 0;
      if (not(is & may))
        vh::fail(vh::cat(kind, "-", is == TAKEN ? "occupied" : is == HIDDEN ? "invisible" : is == FREE ? "free" : "unknown", "-instead-of-", may & TAKEN ? "occupied" : may & HIDDEN ? "invisible" : "free"),
                 vh::cat("cell ", row, ",", col, " at ", x, ",", y, " is ", v, ": ", show(w)));
      if (may != FREE and may != HIDDEN and may != TAKEN) ++either;
      else ++n[may / 2];
    }
  vh::count(vh::cat(kind, ": occupied cells"), n[2]);
  vh::count(vh::cat(kind, ": invisible cells"), n[1]);
  vh::count(vh::cat(kind, ": free cells"), n[0]);
  vh::count(vh::cat(kind, ": cells on a border, either value accepted"), either);
  vh::observed(vh::cat(kind, n[0], "/", n[1], "/", n[2], "/", either, show(w)));
}
Obstacle obstacle(const World & w, bool flat)
{
  Obstacle o;
  const double half = w.resolution * double(std::max(w.rows, w.cols)) / 2;
  switch (g->i(0, 3)) {
    case 0: o.l = g->r(.3, 1), o.w = g->r(.3, 1), o.h = g->r(.5, 2); break;
    case 1: o.l = g->r(3, 12), o.w = g->r(1.5, 3), o.h = g->r(1, 4); break;
    case 2: o.l = g->r(.05, half), o.w = g->r(.05, half), o.h = 1; break;
    default: o.l = g->r(.01, 3 * half), o.w = g->r(.01, .3), o.h = 1; break;
  }
  const double yaw = g->chance(.3) ? double(g->i(-2, 2)) * M_PI / 2 : g->r(-M_PI, M_PI);
  const double pitch = flat ? 0 : g->r(-.3, .3), roll = flat ? 0 : g->r(-.2, .2);
  double x = 0, y = 0;
  switch (g->i(0, 4)) {
    case 0: x = g->r(-half, half), y = g->r(-half, half); break;
    case 1: x = g->r(-2 * half, 2 * half), y = g->r(-2 * half, 2 * half); break;
    case 2: { const double a = g->r(-M_PI, M_PI), d = g->r(0, half); x = d * std::cos(a), y = d * std::sin(a); break; }
    case 3: x = g->chance(.5) ? 0 : g->r(-half, half), y = x == 0 ? g->r(-half, half) : 0; break;          // on an axis
    default: x = g->r(-o.l, o.l), y = g->r(-o.w, o.w);                                                      // around the sensor
  }
  if (g->chance(.2)) x = std::round(x / w.resolution) * w.resolution, y = std::round(y / w.resolution) * w.resolution;
  const auto & q = w.sensor.orientation;
  const Rot r = rot(q.w, q.x, q.y, q.z);
  o.pose.position.x = w.sensor.position.x + r.m[0][0] * x + r.m[0][1] * y;
  o.pose.position.y = w.sensor.position.y + r.m[1][0] * x + r.m[1][1] * y;
  o.pose.position.z = w.sensor.position.z + g->r(-2, 2);
  o.pose.orientation = turned(yaw, pitch, roll);
  o.text = vh::cat(o.l, "x", o.w, "x", o.h, " at ", x, ",", y, " (world ", o.pose.position.x, ",", o.pose.position.y, ") yaw ", yaw, " pitch ", pitch, " roll ", roll);
  return o;
}
World world(bool flat)
{
  World w;
  w.resolution = g->pick(std::vector<double>{.5, .25, 1, .1, .3, g->r(.1, 2)});
  const bool square = g->chance(.4);
  w.rows = std::size_t(g->i(1, 40)), w.cols = square ? w.rows : std::size_t(g->i(1, 40));
  if (g->chance(.6)) { w.sensor.position.x = g->r(-300, 300); w.sensor.position.y = g->r(-300, 300); w.sensor.position.z = g->r(-5, 40); }
  if (g->chance(.1)) { w.sensor.position.x = g->r(-90000, 90000); w.sensor.position.y = g->r(-90000, 90000); }
  if (not flat and g->chance(.5)) w.sensor.orientation = turned(g->r(-M_PI, M_PI), 0, 0);
  for (int k = int(g->i(0, 6)); k > 0; --k) w.obstacles.push_back(obstacle(w, g->chance(.7)));
  return w;
}
void build(OccupancyGridBuilder & b, const World & w)
{
  b.reset(w.sensor);
  for (auto & o : w.obstacles) b.add(primitives::Box(float(o.l), float(o.w), float(o.h), o.pose));
  b.build();
}
}  // namespace
int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng rng(vh::st().seed * 17 + 3);
  g = &rng;
  const std::uint64_t rounds = vh::n(1200, 40000);
  for (std::uint64_t round = 0; round < rounds; ++round) {
    World w = world(false);
    w.taken = g->chance(.8) ? 100 : int(g->i(60, 127)), w.hidden = g->chance(.8) ? 50 : int(g->i(1, 59));
    OccupancyGridBuilder b(w.resolution, w.rows, w.cols, std::int8_t(w.taken), std::int8_t(w.hidden));
    for (int again = int(g->i(1, 3)); again > 0; --again) {   // a builder is used frame after frame
      vh::current("builder " + show(w));
      build(b, w);
      judge(w, b.get(), -double(w.cols) * w.resolution / 2, -double(w.rows) * w.resolution / 2, "builder");
      if (round < 3) vh::sample(show(w));
      const auto once = b.get();
      if (w.obstacles.size() > 1) {
        std::reverse(w.obstacles.begin(), w.obstacles.end());
        if (g->chance(.5)) std::swap(w.obstacles[0], w.obstacles[std::size_t(g->i(0, std::int64_t(w.obstacles.size()) - 1))]);
        build(b, w);
        if (b.get() != once) vh::fail("order-of-obstacles", show(w));
      }
      auto next = world(false);
      w.sensor = next.sensor, w.obstacles.clear();
      for (int k = int(g->i(0, 6)); k > 0; --k) w.obstacles.push_back(obstacle(w, g->chance(.7)));
    }
  }
  // through the sensor: which obstacles count, and where the published grid says it is
  for (std::uint64_t round = 0; round < rounds / 2; ++round) {
    World w = world(true);
    simulation_api_schema::OccupancyGridSensorConfiguration c;
    c.set_entity("ego");
    c.set_resolution(w.resolution), c.set_height(w.rows), c.set_width(w.cols);
    c.set_update_duration(g->pick(std::vector<double>{.05, .1, .5}));
    c.set_range(g->r(1, 60)), c.set_filter_by_range(g->chance(.5));
    auto publisher = std::make_shared<rclcpp::Publisher<nav_msgs::msg::OccupancyGrid>>();
    publisher->topic = "/grid";
    double now = g->r(0, 10), last = now;
    OccupancyGridSensor<nav_msgs::msg::OccupancyGrid> sensor(now, c, publisher);
    std::optional<nav_msgs::msg::OccupancyGrid> got;
    vshim::on_publish() = [&](const std::string &, std::type_index, const void * m) { got = *static_cast<const nav_msgs::msg::OccupancyGrid *>(m); };
    const double step = g->pick(std::vector<double>{1. / 30, 1. / 20, .1, .01});
    for (int frame = 0; frame < 8; ++frame) {
      now += step;
      std::vector<Obstacle> all;
      for (int k = int(g->i(0, 6)); k > 0; --k) all.push_back(obstacle(w, true));
      std::vector<traffic_simulator_msgs::EntityStatus> status;
      std::vector<std::string> lidar;
      w.obstacles.clear();
      auto add = [&](const Obstacle & o, const std::string & name, bool ego) {
        traffic_simulator_msgs::EntityStatus s;
        s.set_name(name);
        s.mutable_type()->set_type(ego ? traffic_simulator_msgs::EntityType::EGO : traffic_simulator_msgs::EntityType::VEHICLE);
        const double cx = ego ? 1 : g->r(-2, 2), cy = ego ? 0 : g->r(-1, 1), cz = 1;
        auto p = s.mutable_bounding_box();
        p->mutable_center()->set_x(cx), p->mutable_center()->set_y(cy), p->mutable_center()->set_z(cz);
        p->mutable_dimensions()->set_x(o.l), p->mutable_dimensions()->set_y(o.w), p->mutable_dimensions()->set_z(o.h);
        geometry_msgs::msg::Pose at = o.pose;
        if (not ego) {
          // the box is centred where the obstacle is
          const Rot r = rot(at.orientation.w, at.orientation.x, at.orientation.y, at.orientation.z);
          at.position.x -= r.m[0][0] * cx + r.m[0][1] * cy + r.m[0][2] * cz;
          at.position.y -= r.m[1][0] * cx + r.m[1][1] * cy + r.m[1][2] * cz;
          at.position.z -= r.m[2][0] * cx + r.m[2][1] * cy + r.m[2][2] * cz;
        }
        simulation_interface::toProto(at, *s.mutable_pose());
        status.push_back(s);
        return std::hypot(at.position.x - w.sensor.position.x, at.position.y - w.sensor.position.y, at.position.z - w.sensor.position.z);
      };
      Obstacle ego;
      ego.l = 4, ego.w = 2, ego.h = 1.5, ego.pose = w.sensor;
      ego.pose.orientation = turned(g->r(-M_PI, M_PI), 0, 0);     // the grid faces north whatever the ego faces
      const int ego_at = int(g->i(0, std::int64_t(all.size())));
      bool unsure = false;
      for (int k = 0; k <= int(all.size()); ++k) {
        if (k == ego_at) add(ego, "ego", true);
        if (k == int(all.size())) break;
        const std::string name = vh::cat("npc", k);
        const bool detected = g->chance(.75);
        if (detected) lidar.push_back(name);
        const double d = add(all[std::size_t(k)], name, false);
        if (std::fabs(d - c.range()) < 1e-6) unsure = true;
        if (detected and (not c.filter_by_range() or d <= c.range())) w.obstacles.push_back(all[std::size_t(k)]);
      }
      if (g->chance(.3)) lidar.push_back("ego");
      if (g->chance(.1)) lidar.push_back("gone");
      std::shuffle(lidar.begin(), lidar.end(), std::mt19937(unsigned(g->i(0, 1 << 30))));
      got.reset();
      const std::int64_t stamp = std::int64_t(now * 1e9);
      vh::current("sensor " + show(w));
      sensor.update(now, status, rclcpp::Time(stamp), lidar);
      const double since = now - last;
      const bool due = since >= c.update_duration() - .0021, early = since < c.update_duration() - .0019;
      if (got ? early : (due and not early)) vh::fail("sensor-period", vh::cat("period ", c.update_duration(), ", ", since, " s after the last grid: ", got ? "published" : "not published"));
      if (not got) { vh::count("frames without a grid"); continue; }
      last = now;
      if (unsure) continue;
      const auto & m = *got;
      if (m.info.width != w.cols or m.info.height != w.rows or std::fabs(double(m.info.resolution) - w.resolution) > 1e-6) vh::fail("message-size", vh::cat(m.info.width, " by ", m.info.height, ": ", show(w)));
      if (std::int64_t(m.header.stamp.sec) * 1000000000 + m.header.stamp.nanosec != stamp) vh::fail("message-stamp", show(w));
      const auto & q = m.info.origin.orientation;
      if (std::fabs(q.x) + std::fabs(q.y) + std::fabs(q.z) > 1e-9) vh::fail("message-orientation", show(w));
      // the grid is centred on the ego
      const double left = m.info.origin.position.x - w.sensor.position.x, bottom = m.info.origin.position.y - w.sensor.position.y;
      if (std::fabs(left + double(w.cols) * w.resolution / 2) > 1e-4 or std::fabs(bottom + double(w.rows) * w.resolution / 2) > 1e-4)
        vh::fail("message-origin", vh::cat("the corner of the grid is at ", left, ",", bottom, " from the ego: ", show(w)));
      judge(w, m.data, -double(w.cols) * w.resolution / 2, -double(w.rows) * w.resolution / 2, "sensor");
    }
    vshim::on_publish() = nullptr;
  }
  vh::finish();
}
