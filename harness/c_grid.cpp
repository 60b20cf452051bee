// C20: the cells visited by a grid traversal against the geometry of the segment.
#include <cmath>
#include <set>
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp>

#include "vh.hpp"
using namespace vh;
using Cell = std::pair<std::int32_t, std::int32_t>;

// parameter interval of the segment inside the box [x0-m,x1+m] x [y0-m,y1+m]
static bool clip(long double sx, long double sy, long double ex, long double ey, long double x0, long double x1,
  long double y0, long double y1, long double & t0, long double & t1)
{
  t0 = 0; t1 = 1;
  const long double p[2] = {sx, sy}, d[2] = {ex - sx, ey - sy}, lo[2] = {x0, y0}, hi[2] = {x1, y1};
  for (int k = 0; k < 2; ++k) {
    if (d[k] == 0) { if (p[k] < lo[k] || p[k] > hi[k]) return false; continue; }
    long double a = (lo[k] - p[k]) / d[k], b = (hi[k] - p[k]) / d[k];
    if (a > b) std::swap(a, b);
    t0 = std::max(t0, a); t1 = std::min(t1, b);
  }
  return t0 <= t1;
}

static void run(double sx, double sy, double ex, double ey)
{
  const std::string story = cat("(", sx, ", ", sy, ") -> (", ex, ", ", ey, ")");
  current(story);
  std::vector<Cell> cells;
  const std::size_t bound = std::size_t(std::abs(ex - sx) + std::abs(ey - sy)) + 16;
  simple_sensor_simulator::GridTraversal traversal(sx, sy, ex, ey);
  for (auto it = traversal.begin(); it != traversal.end(); ++it) {
    const auto [x, y] = *it;
    cells.emplace_back(x, y);
    if (cells.size() > bound) return fail("endless", cat("more than ", bound, " cells for ", story));
  }
  observed(story);
  count("cells visited", cells.size());
  auto show = [&]() {
    std::string s = story + ":";
    for (std::size_t i = 0; i < cells.size() && i < 60; ++i) s += cat(" (", cells[i].first, ",", cells[i].second, ")");
    return s;
  };
  sample(show());
  if (cells.empty()) return fail("empty", show());
  const long double len = std::hypot((long double)ex - sx, (long double)ey - sy);
  const long double eps = 1e-9L * (1 + std::abs(sx) + std::abs(sy) + std::abs(ex) + std::abs(ey));
  if (cells[0] != Cell(std::int32_t(std::floor(sx)), std::int32_t(std::floor(sy)))) return fail("first-cell", show());
  auto [lx, ly] = cells.back();
  if (ex < lx - eps || ex > lx + 1 + eps || ey < ly - eps || ey > ly + 1 + eps) return fail("last-cell", show());
  std::set<Cell> seen;
  long double before = 0;
  for (std::size_t i = 0; i < cells.size(); ++i) {
    auto [x, y] = cells[i];
    if (!seen.insert(cells[i]).second) return fail("cell-twice", show());
    if (i && std::abs(x - cells[i - 1].first) + std::abs(y - cells[i - 1].second) != 1) return fail("not-adjacent", show());
    long double a, b;
    if (!clip(sx, sy, ex, ey, x - eps, x + 1 + eps, y - eps, y + 1 + eps, a, b))
      return fail("untouched-cell", cat("(", x, ",", y, ") is not touched by ", show()));
    if (len > 0 && b * len + 1e-6L < before) return fail("order", show());
    before = std::max(before, a * len);
  }
  // every cell the segment crosses by more than a hair must be there
  std::set<Cell> need;
  auto add = [&](long double t) {
    need.insert({std::int32_t(std::floor(sx + (ex - sx) * t)), std::int32_t(std::floor(sy + (ey - sy) * t))});
  };
  const int samples = int(std::min(400.0L, 8 * len + 8));
  for (int i = 0; i <= samples; ++i) add((long double)i / samples);
  std::vector<long double> ts;
  auto borders = [&](long double s, long double e) {
    if (s == e) return;
    for (long double b = std::ceil(std::min(s, e)); b <= std::max(s, e); ++b) ts.push_back((b - s) / (e - s));
  };
  borders(sx, ex); borders(sy, ey);
  std::sort(ts.begin(), ts.end());
  long double prev = 0;
  for (auto t : ts) { add((prev + t) / 2); prev = t; }
  add((prev + 1) / 2);
  for (auto [x, y] : need) {
    long double a, b;
    if (clip(sx, sy, ex, ey, x, x + 1, y, y + 1, a, b) && (b - a) * len > 1e-6L) {
      // a segment on a border belongs to either neighbour
      if (!clip(sx, sy, ex, ey, x + 1e-9L, x + 1 - 1e-9L, y + 1e-9L, y + 1 - 1e-9L, a, b)) continue;
      if (!seen.count({x, y})) return fail("cell-missed", cat("(", x, ",", y, ") is crossed by ", show()));
    }
  }
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  for (double a = 0; a <= 3; a += 0.5)
    for (double b = 0; b <= 3; b += 0.5)
      for (double c = 0; c <= 3; c += 0.5)
        for (double d = 0; d <= 3; d += 0.5) {
          run(a, b, c, d);
          run(a - 1.5, b - 1.5, c - 1.5, d - 1.5);
        }
  for (std::uint64_t i = 0; i < n(80000, 3000000); ++i) {
    const double size = r.chance(0.5) ? 4 : r.chance(0.7) ? 50 : 400;
    auto coord = [&]() {
      if (r.chance(0.25)) return std::floor(r.r(0, size));
      if (r.chance(0.1)) return std::floor(r.r(0, size)) + 0.5;
      if (r.chance(0.1)) return std::abs(std::floor(r.r(0, size)) + (r.chance(0.5) ? 1e-10 : -1e-10));
      if (r.chance(0.05)) return std::nextafter(std::floor(r.r(1, size + 1)), r.chance(0.5) ? 0.0 : 1e9);
      return r.r(0, size);
    };
    double sx = coord(), sy = coord(), ex = coord(), ey = coord();
    if (r.chance(0.15)) ex = sx;
    if (r.chance(0.15)) ey = sy;
    if (r.chance(0.1)) { const double k = r.r(-2, 2); ex = std::abs(sx + k); ey = std::abs(sy + k); }
    if (r.chance(0.3)) { const double k = std::floor(size / 2); sx -= k; sy -= k; ex -= k; ey -= k; }   // around and left of zero
    run(sx, sy, ex, ey);
  }
  finish();
}
