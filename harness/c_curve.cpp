// C17: lane curves.  The curve is observed through its own point query; lengths, directions,
// crossings and projections are recomputed from those points.
#include <algorithm>
#include <cmath>
#include <memory>
#include <set>
#include <vector>
#include <geometry/spline/catmull_rom_spline.hpp>
#include <geometry/spline/catmull_rom_subspline.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include "vh.hpp"
using vh::cat; using vh::fail; using vh::count;
using math::geometry::CatmullRomSpline;
using math::geometry::CatmullRomSubspline;
using Pt = geometry_msgs::msg::Point;
static Pt pt(double x, double y, double z = 0) { Pt p; p.x = x; p.y = y; p.z = z; return p; }
static double d3(const Pt & a, const Pt & b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
static double d2(const Pt & a, const Pt & b) { return std::hypot(a.x - b.x, a.y - b.y); }
static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
static std::string text(const std::vector<Pt> & v) { std::string s; for (auto & p : v) s += cat("(", p.x, ",", p.y, ",", p.z, ")"); return s; }
static double segment_distance(const Pt & p, const Pt & a, const Pt & b)
{
  double ex = b.x - a.x, ey = b.y - a.y, l = ex * ex + ey * ey;
  double u = l > 0 ? std::clamp(((p.x - a.x) * ex + (p.y - a.y) * ey) / l, 0.0, 1.0) : 0;
  return std::hypot(p.x - a.x - u * ex, p.y - a.y - u * ey);
}

struct Crossing { double s; bool sure; };  // sure: transversal and well inside the edge

// crossings of the curve (a dense sampling of it) with one edge
static void crossings(const CatmullRomSpline & c, const std::vector<double> & ss, const std::vector<Pt> & ps, const Pt & a, const Pt & b, std::vector<Crossing> & out)
{
  const double ex = b.x - a.x, ey = b.y - a.y, l = std::hypot(ex, ey);
  if (l < 1e-9) return;
  auto side = [&](const Pt & p) { return ((p.y - a.y) * ex - (p.x - a.x) * ey) / l; };
  for (std::size_t i = 0; i + 1 < ps.size(); ++i) {
    double f0 = side(ps[i]), f1 = side(ps[i + 1]);
    if ((f0 < 0) == (f1 < 0)) continue;
    double lo = ss[i], hi = ss[i + 1];
    for (int k = 0; k < 50; ++k) {
      double m = (lo + hi) / 2;
      ((side(c.getPoint(m)) < 0) == (f0 < 0) ? lo : hi) = m;
    }
    const double s = (lo + hi) / 2;
    const Pt p = c.getPoint(s);
    const double u = ((p.x - a.x) * ex + (p.y - a.y) * ey) / (l * l);
    if (u < 0 || u > 1) continue;
    const double step = ss[i + 1] - ss[i];
    bool sure = u * l > 1e-3 && (1 - u) * l > 1e-3 && std::abs(f1 - f0) > 0.05 * d2(ps[i], ps[i + 1]) && d2(ps[i], ps[i + 1]) > 0.1 * step && s > 1e-3 && s < c.getLength() - 1e-3;
    // nearly parallel to the edge nearby: another solution may be merged with this one
    for (std::size_t k = i > 3 ? i - 3 : 0; k < std::min(ps.size() - 1, i + 4); ++k)
      if (k != i && (side(ps[k]) < 0) != (side(ps[k + 1]) < 0)) sure = false;
    out.push_back({s, sure});
  }
}

int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng g(vh::st().seed);
  const auto N = vh::n(2500, 60000);
  for (std::uint64_t k = 0; k < N; ++k) {
    // ---- control points
    std::vector<Pt> cps;
    int n = g.chance(.15) ? 2 : int(g.i(3, 12));
    std::string family;
    const double off = g.chance(.3) ? 1e4 : 0;
    double x = g.r(-50, 50) + 3.7 * off, y = g.r(-50, 50) + 7.3 * off, z = g.chance(.5) ? 0 : g.r(-20, 20), h = g.r(-M_PI, M_PI);
    int shape = int(g.i(0, 5));
    const double spacing = std::pow(10.0, g.r(-.3, 1.3)), turn = shape == 0 ? 0 : shape <= 3 ? g.r(0, .4) : 1.2;
    family = shape == 0 ? "straight" : shape <= 3 ? "gentle" : shape == 4 ? "sharp" : "axis";
    bool uneven = g.chance(.3), duplicates = false;
    if (shape == 5) h = M_PI_2 * double(g.i(-1, 2));
    for (int i = 0; i < n; ++i) {
      cps.push_back(pt(x, y, z));
      if (g.chance(.05)) { cps.push_back(pt(x, y, z)); duplicates = true; }
      double step = spacing * (uneven ? g.r(.3, 1.7) : 1);
      if (shape == 5) { if (g.chance(.3)) h += M_PI_2 * double(g.i(-1, 1)); double cx = std::round(std::cos(h)), cy = std::round(std::sin(h)); step = std::ceil(step); x += cx * step; y += cy * step; }
      else { h += g.r(-turn, turn); x += step * std::cos(h); y += step * std::sin(h); }
      if (z != 0) z += g.r(-.1, .1) * step;
    }
    if (shape == 5) for (auto & p : cps) { p.x = std::round(p.x); p.y = std::round(p.y); }
    const auto where = cat(family, duplicates ? " with duplicates" : "", ": ", text(cps));
    vh::current(where);
    vh::observed(where);
    count(cat("curves.", family, n == 2 ? ".two-points" : ""));
    if (k < 4) vh::sample(where);
    const double size = spacing * n, coord = std::abs(x) + std::abs(y) + 100, near = 1e-9 * coord;
    try {
    std::shared_ptr<CatmullRomSpline> sp;
    const bool by_trajectory = g.chance(.2);
    bool closed = false;
    if (by_trajectory) {
      auto t = std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>();
      for (std::size_t i = 1; i < cps.size(); ++i) { traffic_simulator_msgs::msg::Vertex v; v.position.position = cps[i]; t->shape.vertices.push_back(v); }
      t->closed = closed = g.chance(.3) && n > 3;
      sp = std::make_shared<CatmullRomSpline>(cps[0], t);
      count("curves.from-trajectory");
    } else sp = std::make_shared<CatmullRomSpline>(cps);
    const auto & c = *sp;
    std::vector<Pt> want;
    for (auto & p : cps) if (want.empty() || d3(want.back(), p) > 1e-12) want.push_back(p);
    if (closed) want.push_back(cps[0]);
    if (c.control_points.size() != want.size()) { fail("control-points", cat("keeps ", c.control_points.size(), " of ", want.size(), " control points; ", where)); continue; }
    const std::size_t m = want.size();
    // ---- lengths and control points
    std::vector<double> cum{0};
    if (m > 2) {
      auto lens = c.getLengths();
      if (lens.size() + 1 != m) { fail("lengths", cat(lens.size(), " lengths for ", m, " control points; ", where)); continue; }
      for (double l : lens) cum.push_back(cum.back() + l);
    } else cum.push_back(d3(want[0], want[1]));
    if (std::abs(c.getLength() - cum.back()) > 1e-9 * (1 + cum.back())) fail("total-length", cat(c.getLength(), " is not the sum ", cum.back(), "; ", where));
    for (std::size_t i = 0; i < m; ++i) {
      const double s = std::min(cum[i], c.getLength());
      if (d3(c.getPoint(s), want[i]) > near + 1e-6) fail("misses-control-point", cat("point at s=", s, " is ", text({c.getPoint(s)}), " instead of control point ", i, "; ", where));
    }
    // ---- dense sampling per piece
    std::vector<double> ss;
    std::vector<Pt> ps;
    for (std::size_t i = 0; i + 1 < m; ++i) {
      const int K = 200;
      double l = 0, tv = 0, prev = -1;
      Pt last = c.getPoint(cum[i]);
      for (int j = 0; j <= K; ++j) {
        double s = i + 2 == m && j == K ? c.getLength() : cum[i] + (cum[i + 1] - cum[i]) * j / K;
        if (m > 2 && j == K && i + 2 < m) s = cum[i + 1] - 1e-9 * (cum[i + 1] - cum[i]);
        Pt p = c.getPoint(s);
        if (j) { double v = d3(last, p); l += v; if (prev >= 0) tv += std::abs(v - prev) * K; prev = v; }
        last = p;
        if (j < K || i + 2 == m) { ss.push_back(s); ps.push_back(p); }
      }
      if (std::abs(l - (cum[i + 1] - cum[i])) > 0.011 * tv + 1e-3 * l + 1e-6) fail("arc-length", cat("piece ", i, " is ", l, " long and counted as ", cum[i + 1] - cum[i], "; ", where));
      count("pieces");
    }
    const double L = c.getLength();
    if (L < 1e-3) continue;
    // ---- continuity at the joints
    for (std::size_t i = 1; i + 1 < m; ++i) {
      const double e = 1e-6 * std::min(cum[i] - cum[i - 1], cum[i + 1] - cum[i]);
      if (d3(c.getPoint(cum[i] - e), c.getPoint(cum[i] + e)) > 100 * e + near + 1e-6) fail("jump", cat("jump at s=", cum[i], "; ", where));
      auto t0 = c.getTangentVector(cum[i] - e), t1 = c.getTangentVector(cum[i] + e);
      double n0 = std::hypot(t0.x, t0.y), n1 = std::hypot(t1.x, t1.y);
      if (n0 > .02 * spacing && n1 > .02 * spacing && std::abs(wrap(std::atan2(t0.y, t0.x) - std::atan2(t1.y, t1.x))) > 1e-3)
        fail("kink", cat("direction turns at s=", cum[i], "; ", where));
    }
    // ---- points, tangents, normals, poses, offsets
    for (int j = 0; j < 12; ++j) {
      const double s = g.r(0, 1) * L;
      std::size_t piece = std::size_t(std::upper_bound(cum.begin(), cum.end(), s) - cum.begin()) - 1;
      if (piece + 1 >= m) continue;
      const double e = std::min({1e-4 * L, (s - cum[piece]) / 2, (cum[piece + 1] - s) / 2});
      if (e < 1e-7 * L) continue;
      const Pt p = c.getPoint(s), p0 = c.getPoint(s - e), p1 = c.getPoint(s + e);
      const auto t = c.getTangentVector(s), nv = c.getNormalVector(s);
      const double tn = std::hypot(t.x, t.y), fd = d2(p0, p1), heading = std::atan2(t.y, t.x);
      const bool smooth = tn > .05 * spacing && fd > 100 * near;
      count(smooth ? "points.smooth" : "points.slow");
      if (smooth && std::abs(wrap(heading - std::atan2(p1.y - p0.y, p1.x - p0.x))) > 2e-2 + 10 * near / fd) fail("tangent", cat("tangent at s=", s, " does not follow the curve; ", where));
      if (std::abs(nv.x * t.x + nv.y * t.y) > 1e-9 * tn * std::hypot(nv.x, nv.y) || t.x * nv.y - t.y * nv.x < 0 || std::abs(nv.z) > 1e-12) fail("normal", cat("normal at s=", s, "; ", where));
      const auto po = c.getPose(s, true), flat = c.getPose(s, false);
      if (d3(po.position, p) > near) fail("pose-position", cat("s=", s, "; ", where));
      const auto rpy = math::geometry::convertQuaternionToEulerAngle(po.orientation), rpy0 = math::geometry::convertQuaternionToEulerAngle(flat.orientation);
      if (smooth && (std::abs(wrap(rpy.z - heading)) > 1e-6 || std::abs(wrap(rpy0.z - heading)) > 1e-6)) fail("heading", cat("pose at s=", s, " heads ", rpy.z, " where the tangent heads ", heading, "; ", where));
      if (smooth && (std::abs(rpy.y - std::atan2(-t.z, tn)) > 1e-6 || std::abs(rpy.x) > 1e-6)) fail("pitch", cat("pose at s=", s, " pitches ", rpy.y, " on slope ", t.z / tn, "; ", where));
      if (std::abs(rpy0.y) > 1e-9 || std::abs(rpy0.x) > 1e-9) fail("flat-pitch", cat("s=", s, "; ", where));
      const double o = g.r(-5, 5);
      const Pt q = c.getPoint(s, o);
      if (tn > 0 && (std::abs((q.x - p.x) * t.x + (q.y - p.y) * t.y) > (1e-9 * std::abs(o) + near) * tn || std::abs((t.x * (q.y - p.y) - t.y * (q.x - p.x)) / tn - o) > 1e-9 + near || std::abs(q.z - p.z) > 1e-12))
        fail("offset-point", cat("point at s=", s, " offset ", o, "; ", where));
      const Pt far = pt(p.x + g.r(-9, 9), p.y + g.r(-9, 9), p.z + g.r(-9, 9));
      if (std::abs(c.getSquaredDistanceIn2D(far, s) - std::pow(d2(far, p), 2)) > near * 20) fail("squared-distance", cat("s=", s, "; ", where));
      const auto dv = c.getSquaredDistanceVector(far, s);
      if (std::abs(dv.x - far.x + p.x) + std::abs(dv.y - far.y + p.y) + std::abs(dv.z - far.z + p.z) > near) fail("distance-vector", cat("s=", s, "; ", where));
      // ---- projection back
      const double thr = g.r(.5, 4);
      geometry_msgs::msg::Pose from = po;
      const double lateral = g.r(-.9, .9) * thr * (g.chance(.5) ? 0 : 1), err_heading = g.chance(.5) ? 0 : g.r(-.3, .3);
      const Pt lp = c.getPoint(s, lateral);
      from.position.x = lp.x; from.position.y = lp.y; from.position.z = lp.z;
      geometry_msgs::msg::Vector3 e3; e3.z = heading + err_heading;
      from.orientation = math::geometry::convertEulerAngleToQuaternion(e3);
      const auto back = c.getSValue(from, thr);
      // the cross line of the pose
      const double cx = -std::sin(e3.z), cy = std::cos(e3.z);
      const Pt a = pt(lp.x + cx * thr, lp.y + cy * thr), b = pt(lp.x - cx * thr, lp.y - cy * thr);
      std::vector<Crossing> cr;
      crossings(c, ss, ps, a, b, cr);
      std::sort(cr.begin(), cr.end(), [](auto & l, auto & r) { return l.s < r.s; });
      if (back) {
        if (*back < -1e-6 || *back > L + 1e-6) fail("projection-range", cat("s=", *back, "; ", where));
        const Pt r = c.getPoint(std::clamp(*back, 0.0, L));
        if (segment_distance(r, a, b) > 1e-3 + 1e-4 * spacing) fail("projection-not-on-cross-line", cat("pose at ", text({lp}), " heading ", e3.z, " within ", thr, " gives s=", *back, " whose point ", text({r}), " is ", segment_distance(r, a, b), " off the cross line; ", where));
        if (!cr.empty() && cr[0].sure && *back > cr[0].s + 1e-3 * (1 + spacing)) fail("projection-not-first", cat("s=", *back, " although the curve crosses at ", cr[0].s, "; ", where));
        count("projections");
      } else if (std::any_of(cr.begin(), cr.end(), [](auto & q) { return q.sure; }))
        fail("projection-missing", cat("no s for pose at ", text({lp}), " heading ", e3.z, " within ", thr, " though the curve crosses at ", cr[0].s, " (", cr.size(), "); ", where));
      if (smooth && lateral == 0 && err_heading == 0 && cr.size() == 1 && cr[0].sure && (!back || std::abs(*back - s) > 1e-3 * (1 + spacing)))
        fail("projection-not-inverse", cat("pose of s=", s, " gives ", back ? cat(*back) : "nothing", "; ", where));
    }
    // ---- trajectories
    {
      const double s0 = g.r(0, 1) * L, s1 = g.r(0, 1) * L, res = L / g.r(3, 40) * (g.chance(.3) ? -1 : 1), o = g.chance(.5) ? 0 : g.r(-3, 3);
      auto tr = c.getTrajectory(s0, s1, res, o);
      auto tp = c.getTrajectoryPoses(s0, s1, res);
      const double dir = s0 > s1 ? -1 : 1;
      const std::size_t full = std::size_t(std::ceil(std::abs(s1 - s0) / std::abs(res) - 1e-9));
      if (tr.size() > full + 2 || tr.size() < full + 1 || tp.size() != tr.size()) fail("trajectory-size", cat(tr.size(), " and ", tp.size(), " points from ", s0, " to ", s1, " by ", res, "; ", where));
      for (std::size_t i = 0; i < tr.size(); ++i) {
        const double s = i + 1 == tr.size() ? s1 : s0 + dir * std::abs(res) * double(i);
        if (d3(tr[i], c.getPoint(s, o)) > 1e-6 + near || (i < tp.size() && d3(tp[i].position, c.getPoint(s)) > 1e-6 + near)) { fail("trajectory-point", cat("point ", i, " from ", s0, " to ", s1, " by ", res, "; ", where)); break; }
      }
      bool threw = false;
      try { c.getTrajectory(s0, s1, 0); } catch (const common::SimulationError &) { threw = true; }
      if (!threw) fail("trajectory-zero-resolution", where);
    }
    if (m > 2 || true) {  // ---- band around the curve
      const std::size_t np = std::size_t(g.i(1, 30));
      const double w = g.r(.5, 6), zo = g.r(-1, 1);
      auto poly = sp->getPolygon(w, np, zo);
      if (poly.size() != 6 * np) fail("polygon-size", cat(poly.size(), " for ", np, "; ", where));
      else for (std::size_t i = 0; i < np; ++i) {
        const double s = std::min(L, L / double(np) * double(i)), s2 = std::min(L, L / double(np) * double(i + 1));
        const Pt r0 = c.getPoint(s, w / 2), l0 = c.getPoint(s, -w / 2), r1 = c.getPoint(s2, w / 2), l1 = c.getPoint(s2, -w / 2);
        const Pt expect[6] = {r0, l0, r1, l0, l1, r1};
        for (int j = 0; j < 6; ++j) {
          Pt q = expect[j]; q.z += zo;
          if (d3(q, poly[6 * i + std::size_t(j)]) > 1e-6 + near + 1e-9 * L * 100) { fail("polygon-point", cat("strip ", i, " corner ", j, "; ", where)); i = np; break; }
        }
      }
    }
    // ---- crossings with polylines and polygons
    for (int j = 0; j < 6; ++j) {
      std::vector<Pt> poly;
      const int pn = int(g.i(2, 6));
      const Pt mid = c.getPoint(g.r(0, 1) * L);
      const double reach = g.chance(.5) ? 3 : size / 3;
      const int kind = int(g.i(0, 2));
      if (kind == 0) for (int i = 0; i < pn; ++i) poly.push_back(pt(mid.x + g.r(-reach, reach), mid.y + g.r(-reach, reach)));
      else if (kind == 1) {  // a box, possibly axis-parallel, made by rotation
        double a = g.chance(.5) ? M_PI_2 * double(g.i(-2, 2)) : g.r(-M_PI, M_PI), lx = g.r(.5, reach), ly = g.r(.5, reach), ox = g.chance(.3) ? 0 : g.r(-2, 2) * ly;
        for (int i = 0; i < 4; ++i) { double bx = (i == 0 || i == 3 ? 1 : -1) * lx + ox, by = (i < 2 ? 1 : -1) * ly + ox; poly.push_back(pt(mid.x + bx * std::cos(a) - by * std::sin(a), mid.y + bx * std::sin(a) + by * std::cos(a))); }
      } else {  // a stop line across, possibly beside the lane, possibly through a control point
        const Pt base = g.chance(.5) ? want[std::size_t(g.i(0, std::int64_t(m) - 1))] : mid;
        double a = g.chance(.5) ? M_PI_2 * double(g.i(-2, 2)) : g.r(-M_PI, M_PI), from = g.r(-4, 4), to = g.r(-4, 4);
        poly = {pt(base.x + from * std::cos(a), base.y + from * std::sin(a)), pt(base.x + to * std::cos(a), base.y + to * std::sin(a))};
      }
      const auto what = cat(text(poly), " and ", where);
      vh::current(what);
      std::vector<Crossing> cr;
      const bool closing = m > 2;   // a curve of two points takes the polyline as it is
      for (std::size_t i = 0; i + 1 < poly.size(); ++i) crossings(c, ss, ps, poly[i], poly[i + 1], cr);
      if (poly.size() > 2) { std::vector<Crossing> last; crossings(c, ss, ps, poly.back(), poly[0], last); for (auto q : last) { q.sure = q.sure && closing; cr.push_back(q); } }
      std::set<double> got;
      std::optional<double> first, last;
      try {
        got = c.getCollisionPointsIn2D(poly);
        first = c.getCollisionPointIn2D(poly, false);
        last = c.getCollisionPointIn2D(poly, true);
      } catch (const common::SimulationError & e) {
        if (m == 2) { count("collinear-reported"); continue; }
        throw;
      }
      count("polylines");
      // along an edge the whole overlap is a crossing, and which of its points are reported is not specified
      bool along = false;
      for (std::size_t i = 0; i < poly.size() && !along; ++i) {
        const Pt a = poly[i], b = poly[(i + 1) % poly.size()];
        int run = 0;
        for (std::size_t q = 0; q < ps.size() && !along; ++q) {
          run = d2(a, b) > 0 && std::abs((ps[q].y - a.y) * (b.x - a.x) - (ps[q].x - a.x) * (b.y - a.y)) < 1e-5 * d2(a, b) + near ? run + 1 : 0;
          along = run > 20;
        }
      }
      if (along) count("polylines.along");
      else if (first.has_value() != !got.empty() || last.has_value() != !got.empty()) fail("first-last-presence", what);
      else if (first && (std::abs(*first - *got.begin()) > 1e-9 * (1 + L) || std::abs(*last - *got.rbegin()) > 1e-9 * (1 + L))) {
        fail("first-last", cat("first ", *first, " last ", *last, " of ", *got.begin(), " .. ", *got.rbegin(), "; ", what));
      }
      for (double s : got) {
        if (s < -1e-6 || s > L + 1e-6) { fail("crossing-range", cat(s, "; ", what)); continue; }
        const Pt p = c.getPoint(std::clamp(s, 0.0, L));
        double best = 1e300;
        for (std::size_t i = 0; i < poly.size(); ++i) best = std::min(best, segment_distance(p, poly[i], poly[(i + 1) % poly.size()]));
        if (!along && best > 1e-3 + 1e-4 * spacing) fail("crossing-invented", cat("s=", s, " at ", text({p}), " is ", best, " away; ", what));
        count("crossings.reported");
      }
      for (auto & q : cr) {
        if (!q.sure) continue;
        count("crossings.sure");
        auto it = got.lower_bound(q.s);
        double best = 1e300;
        if (it != got.end()) best = std::min(best, *it - q.s);
        if (it != got.begin()) best = std::min(best, q.s - *std::prev(it));
        if (best > 1e-3 * (1 + spacing)) fail("crossing-missed", cat("crossing at s=", q.s, " not among the ", got.size(), " reported; ", what));
      }
      if (poly.size() == 2 && !along) {
        auto a = c.getCollisionPointIn2D(poly[0], poly[1], false), b = c.getCollisionPointIn2D(poly[0], poly[1], true);
        if (a.has_value() != !got.empty() || b.has_value() != !got.empty()) fail("two-point-form-presence", cat("two points: ", a.has_value(), " polyline: ", !got.empty(), "; ", what));
        else if (a && (std::abs(*a - *first) > 1e-6 * (1 + L) || std::abs(*b - *last) > 1e-6 * (1 + L))) fail("two-point-form", cat(*a, " ", *b, " instead of ", *first, " ", *last, "; ", what));
      }
      // ---- parts of the curve
      const double u = g.r(0, 1) * L, v = g.r(0, 1) * L, s0 = std::min(u, v), s1 = std::max(u, v);
      const auto ranged = c.getCollisionPointsIn2D(poly, false, std::make_pair(s0, s1));
      for (double s : ranged) if (!got.count(s)) fail("range-invents", cat(s, " in [", s0, ",", s1, "]; ", what));
      for (double s : got) if (s > s0 && s < s1 && !ranged.count(s)) fail("range-loses", cat(s, " in [", s0, ",", s1, "]; ", what));
      CatmullRomSubspline sub(sp, s0, s1);
      if (std::abs(sub.getLength() - (s1 - s0)) > 1e-12 * L) fail("part-length", what);
      for (bool backward : {false, true}) {
        const auto all = c.getCollisionPointsIn2D(poly, backward);
        auto it = all.lower_bound(s0), en = all.upper_bound(s1);
        const auto r = sub.getCollisionPointIn2D(poly, backward);
        if (r.has_value() != (it != en)) fail("part-presence", cat("part [", s0, ",", s1, "] backward ", backward, "; ", what));
        else if (r && std::abs(*r + s0 - (backward ? *std::prev(en) : *it)) > 1e-9 * (1 + L)) fail("part-crossing", cat("part [", s0, ",", s1, "] backward ", backward, " gives ", *r, "; ", what));
        count("parts");
      }
      const double ds = g.r(0, 1) * (s1 - s0);
      if (std::abs(sub.getSquaredDistanceIn2D(mid, ds) - c.getSquaredDistanceIn2D(mid, s0 + ds)) > 1e-6) fail("part-distance", what);
      const auto alt = sub.getAltitudeRange();
      for (std::size_t i = 0; i < m; ++i)
        if (cum[i] > s0 + 1e-9 && cum[i] < s1 - 1e-9 && (want[i].z < alt.first - 1e-9 || want[i].z > alt.second + 1e-9)) fail("part-altitude", cat("control point ", i, " at height ", want[i].z, " outside ", alt.first, " .. ", alt.second, " of part [", s0, ",", s1, "]; ", what));
      if (alt.first > alt.second || alt.first > c.getAltitudeRange().second + 1e-9 || alt.second < c.getAltitudeRange().first - 1e-9) fail("part-altitude-range", cat("heights ", alt.first, " .. ", alt.second, " of part [", s0, ",", s1, "]; ", what));
    }
    vh::current(where);
    // ---- heights and curvature
    {
      double lo = 1e300, hi = -1e300;
      for (auto & p : want) { lo = std::min(lo, p.z); hi = std::max(hi, p.z); }
      const auto a = c.getAltitudeRange();
      if (a.first != lo || a.second != hi) fail("altitude", cat(a.first, " .. ", a.second, " instead of ", lo, " .. ", hi, "; ", where));
    }
    if (m > 2 && off == 0) {
      const double kappa = c.getMaximum2DCurvature();
      double top = 0, least = 0;
      bool slow = false;
      for (std::size_t i = 0; i + 1 < m; ++i)
        for (int j = 1; j < 40; ++j) {
          const double q = cum[i] + (cum[i + 1] - cum[i]) * j / 40, e = (cum[i + 1] - cum[i]) / 400;
          const auto t0 = c.getTangentVector(q - e), t1 = c.getTangentVector(q + e);
          const double len = d2(c.getPoint(q - e), c.getPoint(q + e));
          if (std::hypot(t0.x, t0.y) < .1 * spacing || len < 1e-6) { slow = true; continue; }
          const double v = std::abs(wrap(std::atan2(t1.y, t1.x) - std::atan2(t0.y, t0.x))) / len;
          top = std::max(top, v);
          if (j % 4 == 0) {
            const double f = e / 100;
            const auto u0 = c.getTangentVector(q - f), u1 = c.getTangentVector(q + f);
            least = std::max(least, std::abs(wrap(std::atan2(u1.y, u1.x) - std::atan2(u0.y, u0.x))) / d2(c.getPoint(q - f), c.getPoint(q + f)));
          }
        }
      if (!slow) {
        auto exact = top;  // finer, where the bend is sharp
        if (std::abs(kappa) > top * 1.6 + 1e-3 / spacing)
          for (std::size_t i = 0; i + 1 < m; ++i)
            for (int j = 1; j < 4000; ++j) {
              const double q = cum[i] + (cum[i + 1] - cum[i]) * j / 4000, e = (cum[i + 1] - cum[i]) / 20000;
              const auto t0 = c.getTangentVector(q - e), t1 = c.getTangentVector(q + e);
              exact = std::max(exact, std::abs(wrap(std::atan2(t1.y, t1.x) - std::atan2(t0.y, t0.x))) / std::max(d2(c.getPoint(q - e), c.getPoint(q + e)), 1e-9));
            }
        if (std::abs(kappa) > std::max(exact * 1.1, top * 1.6) + 1e-3 / spacing) fail("curvature-too-high", cat(kappa, " where the curve bends ", top, "; ", where));
        if (std::abs(kappa) < least * .95 - 1e-3 / spacing) fail("curvature-too-low", cat(kappa, " where the curve bends ", least, "; ", where));
        count("curvatures");
      }
    }
    } catch (const std::exception & e) { fail("exception", cat(e.what(), "; ", where)); }
  }
  // a curve of no points is refused, of one point is that point
  try { CatmullRomSpline c{std::vector<Pt>{}}; fail("no-points", "accepted"); } catch (const common::SemanticError &) {}
  {
    CatmullRomSpline c{std::vector<Pt>{pt(1, 2, 3), pt(1, 2, 3)}};
    if (d3(c.getPoint(0), pt(1, 2, 3)) > 0 || c.getLength() != 0) fail("one-point", "");
  }
  vh::finish();
}
