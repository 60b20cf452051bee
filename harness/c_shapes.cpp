// C19: distances, overlaps, intersections and hulls against direct computation.
#include <algorithm>
#include <cmath>
#include <limits>
#include <optional>
#include <vector>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <traffic_simulator_msgs/msg/bounding_box.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <geometry/bounding_box.hpp>
#include <geometry/distance.hpp>
#include <geometry/intersection/collision.hpp>
#include <geometry/intersection/intersection.hpp>
#include <geometry/polygon/line_segment.hpp>
#include <geometry/polygon/polygon.hpp>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/vector3/vector3.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include "vh.hpp"
using vh::cat; using vh::fail; using vh::count;
using namespace math::geometry;
using L = long double;
using P3 = geometry_msgs::msg::Point;
using Pose = geometry_msgs::msg::Pose;
using Box = traffic_simulator_msgs::msg::BoundingBox;
struct V { L x, y; };
using Ring = std::vector<V>;
static L seg(const V & p, const V & a, const V & b)
{
  L ex = b.x - a.x, ey = b.y - a.y, l = ex * ex + ey * ey, u = l > 0 ? std::clamp(((p.x - a.x) * ex + (p.y - a.y) * ey) / l, 0.0L, 1.0L) : 0;
  return std::hypot(p.x - a.x - u * ex, p.y - a.y - u * ey);
}
static L cross(const V & a, const V & b, const V & c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool properly(const V & a, const V & b, const V & c, const V & d) { return cross(a, b, c) * cross(a, b, d) < 0 && cross(c, d, a) * cross(c, d, b) < 0; }
static L segseg(const V & a, const V & b, const V & c, const V & d)
{
  if (properly(a, b, c, d)) return 0;
  return std::min({seg(a, c, d), seg(b, c, d), seg(c, a, b), seg(d, a, b)});
}
static bool inside(const Ring & r, const V & p)
{
  bool in = false;
  for (std::size_t i = 0, j = r.size() - 1; i < r.size(); j = i++)
    if ((r[i].y > p.y) != (r[j].y > p.y) && p.x < (r[j].x - r[i].x) * (p.y - r[i].y) / (r[j].y - r[i].y) + r[i].x) in = !in;
  return in;
}
static L rim(const Ring & r, const V & p) { L d = 1e300L; for (std::size_t i = 0; i < r.size(); ++i) d = std::min(d, seg(p, r[i], r[(i + 1) % r.size()])); return d; }
static L gap(const Ring & a, const Ring & b)   // 0 when they share a point
{
  if (inside(a, b[0]) || inside(b, a[0])) return 0;
  L d = 1e300L;
  for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) d = std::min(d, segseg(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()]));
  return d;
}
// how deep they overlap (convex): the smallest shift that separates them
static L depth(const Ring & a, const Ring & b)
{
  L best = 1e300L;
  for (int w = 0; w < 2; ++w) {
    const Ring & r = w ? b : a;
    for (std::size_t i = 0; i < r.size(); ++i) {
      V p = r[i], q = r[(i + 1) % r.size()];
      L nx = q.y - p.y, ny = p.x - q.x, n = std::hypot(nx, ny);
      if (n == 0) continue;
      L a0 = 1e300L, a1 = -1e300L, b0 = 1e300L, b1 = -1e300L;
      for (auto & v : a) { L t = (v.x * nx + v.y * ny) / n; a0 = std::min(a0, t); a1 = std::max(a1, t); }
      for (auto & v : b) { L t = (v.x * nx + v.y * ny) / n; b0 = std::min(b0, t); b1 = std::max(b1, t); }
      best = std::min(best, std::min(a1 - b0, b1 - a0));
    }
  }
  return best;
}
static Ring corners(const Pose & p, L yaw, const Box & b)
{
  Ring r;
  const L c = std::cos(yaw), s = std::sin(yaw);
  for (int i = 0; i < 4; ++i) {
    L x = L(b.center.x) + (i == 0 || i == 3 ? .5L : -.5L) * b.dimensions.x, y = L(b.center.y) + (i < 2 ? .5L : -.5L) * b.dimensions.y;
    r.push_back({p.position.x + c * x - s * y, p.position.y + s * x + c * y});
  }
  return r;
}
static P3 pt(double x, double y, double z = 0) { P3 p; p.x = x; p.y = y; p.z = z; return p; }
static std::string text(const std::vector<P3> & v) { std::string s; for (auto & p : v) s += cat("(", p.x, ",", p.y, ",", p.z, ")"); return s; }
static V v2(const P3 & p) { return {p.x, p.y}; }

int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng g(vh::st().seed);
  const auto N = vh::n(10000, 600000);
  for (std::uint64_t k = 0; k < N; ++k) {
    try {
    // ---- bounding boxes
    {
      const double far = g.chance(.2) ? 1e5 : g.chance(.5) ? 10 : 50;
      const double ox = g.chance(.2) ? g.r(-1e5, 1e5) : 0, oy = ox == 0 ? 0 : g.r(-1e5, 1e5);
      struct B { Pose p; double yaw; Box b; Ring r; };
      const bool axis = g.chance(.2), whole = g.chance(.2);
      auto make = [&] {
        B r;
        auto c = [&](double v) { return whole ? std::round(v) : v; };
        r.p.position = pt(c(ox + g.r(-far, far)), c(oy + g.r(-far, far)), g.chance(.5) ? 0 : g.r(-3, 3));
        r.yaw = axis ? M_PI_2 * double(g.i(-1, 2)) : g.r(-M_PI, M_PI);
        geometry_msgs::msg::Vector3 e; e.z = r.yaw;
        r.p.orientation = convertEulerAngleToQuaternion(e);
        r.b.dimensions.x = std::max(.1, c(g.r(.2, 12))); r.b.dimensions.y = std::max(.1, c(g.r(.2, 4))); r.b.dimensions.z = g.r(.5, 4);
        if (g.chance(.5)) { r.b.center.x = c(g.r(-3, 3)); r.b.center.y = c(g.r(-1, 1)); r.b.center.z = g.r(-1, 2); }
        r.r = corners(r.p, r.yaw, r.b);
        return r;
      };
      B a = make(), b = make();
      if (g.chance(.3)) {  // put it close: slide b to touch or nearly touch a
        b.p.position.x = a.p.position.x + g.r(-8, 8); b.p.position.y = a.p.position.y + g.r(-8, 8); b.p.position.z = a.p.position.z;
        b.r = corners(b.p, b.yaw, b.b);
      }
      if (g.chance(.05)) { b = a; const double f = g.r(.1, .9); b.b.dimensions.x *= f; b.b.dimensions.y *= f; b.r = corners(b.p, b.yaw, b.b); }
      const auto w = cat("box ", text({a.p.position}), " yaw ", a.yaw, " size ", a.b.dimensions.x, "x", a.b.dimensions.y, "x", a.b.dimensions.z, " centre ", a.b.center.x, ",", a.b.center.y, ",", a.b.center.z, " and box ", text({b.p.position}), " yaw ", b.yaw, " size ", b.b.dimensions.x, "x", b.b.dimensions.y, "x", b.b.dimensions.z, " centre ", b.b.center.x, ",", b.b.center.y, ",", b.b.center.z);
      vh::current(w); vh::observed(w);
      if (k < 3) vh::sample(w);
      const L d = gap(a.r, b.r), eps = 1e-9L * (1 + std::abs(L(a.p.position.x)) + std::abs(L(a.p.position.y)) + far);
      const bool apart = d > eps, overlap = d == 0 && depth(a.r, b.r) > eps;
      const auto got = getPolygonDistance(a.p, a.b, b.p, b.b), rev = getPolygonDistance(b.p, b.b, a.p, a.b);
      count(apart ? "boxes.apart" : overlap ? "boxes.overlapping" : "boxes.touching");
      if (apart && (!got || std::abs(L(*got) - d) > eps)) fail("distance", cat(got ? cat(*got) : "none", " instead of ", double(d), "; ", w));
      if (overlap && got && *got > 0) fail("overlap-has-distance", cat(*got, "; ", w));
      if ((apart || overlap) && (got.has_value() != rev.has_value() || (got && std::abs(*got - *rev) > double(eps)))) fail("distance-order", w);
      const auto cp = getClosestPoses(a.p, a.b, b.p, b.b);
      if (apart) {
        if (!cp) fail("closest-missing", w);
        else {
          // one point on each outline, as far apart as the distance
          const V p{cp->first.position.x, cp->first.position.y}, q{cp->second.position.x, cp->second.position.y};
          const bool straight = rim(a.r, p) < eps && rim(b.r, q) < eps, swapped = rim(a.r, q) < eps && rim(b.r, p) < eps;
          if (!straight && !swapped) fail("closest-not-on-outlines", w);
          if (std::abs(std::hypot(p.x - q.x, p.y - q.y) - d) > eps) fail("closest-not-closest", w);
          if (straight) count("closest.straight"); else count("closest.swapped");
        }
      } else if (overlap && cp) fail("closest-of-overlapping", w);
      // rigid motion
      {
        const double mx = g.r(-30, 30), my = g.r(-30, 30), t = g.r(-M_PI, M_PI);
        auto moved = [&](B x) {
          const double c = std::cos(t), s = std::sin(t), px = x.p.position.x - ox, py = x.p.position.y - oy;
          x.p.position.x = ox + mx + c * px - s * py; x.p.position.y = oy + my + s * px + c * py;
          geometry_msgs::msg::Vector3 e; e.z = x.yaw + t;
          x.p.orientation = convertEulerAngleToQuaternion(e);
          return x;
        };
        const B a2 = moved(a), b2 = moved(b);
        const auto m = getPolygonDistance(a2.p, a2.b, b2.p, b2.b);
        if ((apart || overlap) && (m.has_value() != got.has_value() || (m && std::abs(*m - *got) > 10 * double(eps)))) fail("distance-moved", w);
        if ((apart || overlap) && checkCollision2D(a2.p, a2.b, b2.p, b2.b) != checkCollision2D(a.p, a.b, b.p, b.b)) fail("collision-moved", w);
      }
      const L za = L(a.p.position.z) + a.b.center.z, zb = L(b.p.position.z) + b.b.center.z, zgap = std::abs(za - zb) - (L(a.b.dimensions.z) + b.b.dimensions.z) / 2;
      const bool col = checkCollision2D(a.p, a.b, b.p, b.b);
      if (std::abs(zgap) > 1e-9L && (apart || overlap)) {
        if (col != (overlap && zgap < 0)) fail("collision", cat(col, "; ", w));
        if (col != checkCollision2D(b.p, b.b, a.p, a.b)) fail("collision-order", w);
        count(col ? "collisions" : "no-collisions");
      }
      // corners
      const double er = g.chance(.5) ? 0 : g.r(0, 2), el = g.chance(.5) ? 0 : g.r(0, 2), ef = g.chance(.5) ? 0 : g.r(0, 2), eb = g.chance(.5) ? 0 : g.r(0, 2);
      const auto ps = getPointsFromBbox(a.b, er, el, ef, eb);
      const auto e = getDistancesFromCenterToEdge(a.b);
      const double fr = a.b.center.x + a.b.dimensions.x / 2, re = a.b.center.x - a.b.dimensions.x / 2, le = a.b.center.y + a.b.dimensions.y / 2, ri = a.b.center.y - a.b.dimensions.y / 2, up = a.b.center.z + a.b.dimensions.z / 2, dn = a.b.center.z - a.b.dimensions.z / 2;
      auto eq = [](double x, double y) { return std::abs(x - y) < 1e-12; };
      if (!eq(e.front, fr) || !eq(e.rear, re) || !eq(e.left, le) || !eq(e.right, ri) || !eq(e.up, up) || !eq(e.down, dn)) fail("edges", w);
      if (ps.size() != 4) fail("corners", w);
      else {
        const double xs[4] = {fr + ef, re - eb, re - eb, fr + ef}, ys[4] = {le + el, le + el, ri - er, ri - er};
        for (std::size_t i = 0; i < 4; ++i) if (!eq(ps[i].x, xs[i]) || !eq(ps[i].y, ys[i]) || !eq(ps[i].z, up)) { fail("corner", cat(i, "; ", w)); break; }
      }
      const auto hull = toPolygon2D(a.b);
      for (auto & h : hull) if (!((eq(h.x, fr) || eq(h.x, re)) && (eq(h.y, le) || eq(h.y, ri)))) { fail("outline", w); break; }
      for (double x : {fr, re}) for (double y : {le, ri}) if (std::none_of(hull.begin(), hull.end(), [&](auto & h) { return eq(h.x, x) && eq(h.y, y); })) fail("outline-misses-corner", w);
      // closest point on the outline
      const auto poly = toPolygon2D(a.p, a.b);
      const V q{a.p.position.x + g.r(-15, 15), a.p.position.y + g.r(-15, 15)};
      const auto c = getClosestPointOnPolygon(boost_point(double(q.x), double(q.y)), poly);
      const V cv{c.x(), c.y()};
      if (rim(a.r, cv) > eps || std::abs(std::hypot(cv.x - q.x, cv.y - q.y) - rim(a.r, {L(double(q.x)), L(double(q.y))})) > eps) fail("closest-point", w);
      const auto sp = subtractPoses(a.p, b.p);
      if (sp.position.x != a.p.position.x - b.p.position.x || sp.position.y != a.p.position.y - b.p.position.y) fail("subtract", w);
      const L px = L(a.p.position.x) - b.p.position.x, py = L(a.p.position.y) - b.p.position.y, pz = L(a.p.position.z) - b.p.position.z, pd = std::sqrt(px * px + py * py + pz * pz);
      for (double v : {getDistance(a.p, b.p), getDistance(a.p.position, b.p), getDistance(a.p, b.p.position), getDistance(a.p.position, b.p.position), getDistance(b.p, a.p)})
        if (std::abs(v - pd) > 1e-12L * (1 + pd)) { fail("point-distance", w); break; }
    }
    // ---- segments
    {
      const int kind = int(g.i(0, 3));
      auto c = [&](double s) { return kind == 0 ? double(g.i(-5, 5)) : g.r(-s, s); };
      const double s = std::pow(10.0, g.r(-1, 3)), ox = g.chance(.2) ? 1e4 : 0;
      auto p = [&] { return pt(ox + c(s), ox + c(s), g.chance(.5) ? 0 : c(s)); };
      P3 a = p(), b = p(), x = p(), y = p();
      if (kind == 2) { const double u = g.r(0, 1); x = pt(a.x + u * (b.x - a.x), a.y + u * (b.y - a.y)); }
      if (g.chance(.05)) x = a;
      if (std::hypot(a.x - b.x, a.y - b.y) < 1e-6 * s || std::hypot(x.x - y.x, x.y - y.y) < 1e-6 * s) continue;
      const auto w = cat("segments ", text({a, b}), " ", text({x, y}));
      vh::current(w); vh::observed(w);
      if (k < 3) vh::sample(w);
      const LineSegment l(a, b), m(x, y);
      const L d = segseg(v2(a), v2(b), v2(x), v2(y)), eps = 1e-10L * (std::abs(L(ox)) + s);
      const bool exact = kind == 0;   // small integers: no rounding
      const bool sure_apart = d > (exact ? 0 : eps);
      bool sure_meet = false;
      if (exact) sure_meet = d == 0;
      else sure_meet = properly(v2(a), v2(b), v2(x), v2(y)) && std::min({seg(v2(a), v2(x), v2(y)), seg(v2(b), v2(x), v2(y)), seg(v2(x), v2(a), v2(b)), seg(v2(y), v2(a), v2(b))}) > eps;
      for (bool got : {l.isIntersect2D(m), m.isIntersect2D(l), math::geometry::isIntersect2D(l, m), math::geometry::isIntersect2D(m, l), math::geometry::isIntersect2D(std::vector<LineSegment>{l, m})}) {
        if (sure_apart && got) { fail("segments-meet-wrongly", w); break; }
        if (sure_meet && !got) { fail("segments-missed", w); break; }
      }
      count(sure_meet ? "segments.meeting" : sure_apart ? "segments.apart" : "segments.touching");
      const L cr = (L(b.x) - a.x) * (L(y.y) - x.y) - (L(b.y) - a.y) * (L(y.x) - x.x), ll = std::hypot(L(b.x) - a.x, L(b.y) - a.y) * std::hypot(L(y.x) - x.x, L(y.y) - x.y);
      if (std::abs(cr) > 1e-6L * ll) {
        const L u = ((L(x.x) - a.x) * (L(y.y) - x.y) - (L(x.y) - a.y) * (L(y.x) - x.x)) / cr;
        const V want{a.x + u * (L(b.x) - a.x), a.y + u * (L(b.y) - a.y)};
        const auto i = l.getIntersection2D(m), j = math::geometry::getIntersection2D(m, l);
        const auto sv = l.get2DIntersectionSValue(m, false), sd = l.get2DIntersectionSValue(m, true);
        if (sure_apart && (i || j || sv || sd)) fail("intersection-invented", w);
        if (sure_meet) {
          const L tol = eps * ll / std::abs(cr) * 1e-1L + 1e-9L * s;
          if (!i || !j) fail("intersection-missed", w);
          else if (std::hypot(i->x - want.x, i->y - want.y) > tol || std::hypot(j->x - want.x, j->y - want.y) > tol) fail("intersection-point", cat(text({*i}), " instead of ", double(want.x), ",", double(want.y), "; ", w));
          if (!sv || !sd || std::abs(*sv - u) > 1e-6L || std::abs(*sd - u * l.length) > 1e-6L * l.length) fail("intersection-s", cat(sv ? cat(*sv) : "none", " instead of ", double(u), "; ", w));
          auto many = math::geometry::getIntersection2D(std::vector<LineSegment>{l, m});
          if (many.size() != 2) fail("intersections-of-list", w);   // each pair is reported in both orders
          count("intersections");
        }
      }
      // along a segment
      const double u = g.chance(.1) ? double(g.i(0, 1)) : g.r(0, 1);
      const auto pu = l.getPoint(u, false), pl = l.getPoint(std::min(u * l.length, l.length), true);
      const L tol = 1e-12L * (std::abs(L(ox)) + s * 10);
      for (auto & q : {pu, pl}) if (std::abs(q.x - (a.x + u * (L(b.x) - a.x))) > tol || std::abs(q.y - (a.y + u * (L(b.y) - a.y))) > tol || std::abs(q.z - (a.z + u * (L(b.z) - a.z))) > tol) { fail("segment-point", w); break; }
      const auto pose = l.getPose(u, false, true), flat = l.getPose(u, false, false);
      const auto r1 = convertQuaternionToEulerAngle(pose.orientation), r2 = convertQuaternionToEulerAngle(flat.orientation);
      const double yaw = std::atan2(b.y - a.y, b.x - a.x), pitch = -std::atan2(b.z - a.z, std::hypot(b.x - a.x, b.y - a.y));
      if (std::abs(std::remainder(r1.z - yaw, 2 * M_PI)) > 1e-6 || std::abs(std::remainder(r2.z - yaw, 2 * M_PI)) > 1e-6 || std::abs(r1.y - pitch) > 1e-6 || std::abs(r2.y) > 1e-9 || std::abs(r1.x) > 1e-6) fail("segment-pose", w);
      const auto n = l.getNormalVector();
      if (std::abs(n.x + (b.y - a.y)) > double(tol) || std::abs(n.y - (b.x - a.x)) > double(tol) || n.z != 0) fail("segment-normal", w);
      if (std::abs(b.x - a.x) > 1e-9) {
        const double sl = l.get2DVectorSlope(), want = (b.y - a.y) / (b.x - a.x);
        if (std::abs(sl - want) > 1e-9 * (1 + std::abs(want))) fail("slope", w);
      } else if (a.x == b.x) { try { l.get2DVectorSlope(); fail("slope-of-vertical", w); } catch (const common::SimulationError &) {} }
      const L sq = std::pow(x.x - pu.x, 2) + std::pow(x.y - pu.y, 2);
      if (std::abs(l.getSquaredDistanceIn2D(x, u, false) - sq) > 1e-9L * (1 + sq)) fail("segment-squared-distance", w);
      const auto dv = l.getSquaredDistanceVector(x, u, false);
      if (std::abs(dv.x - x.x + pu.x) + std::abs(dv.y - x.y + pu.y) + std::abs(dv.z - x.z + pu.z) > 1e-9) fail("segment-distance-vector", w);
      const L det = cross(v2(a), v2(b), v2(x));
      if (exact || std::abs(det) > eps * s) {
        const int side = l.relativePointPosition2D(x), want = det > 0 ? 1 : det < 0 ? -1 : 0;
        // the sign convention is fixed by the segment itself: what lies left of it
        const V left{L(a.x) - (L(b.y) - a.y), L(a.y) + (L(b.x) - a.x)};
        const int lside = l.relativePointPosition2D(pt(double(left.x), double(left.y)));
        if (side != want * lside || lside == 0) fail("side", w);
      }
      for (double bad : {-.1, 1.1, std::nan("")}) { try { l.getPoint(bad, false); fail("segment-outside", cat(bad, "; ", w)); } catch (const common::SimulationError &) {} }
      if (exact && d == 0) {
        // a point of integer coordinates on the segment
        if (seg(v2(x), v2(a), v2(b)) == 0 && !l.isIntersect2D(x)) fail("point-on-segment", w);
      }
      if (seg(v2(x), v2(a), v2(b)) > eps && l.isIntersect2D(x)) fail("point-off-segment", w);
      std::vector<P3> chain;
      for (auto q = g.i(0, 6); q-- > 0;) chain.push_back(g.chance(.2) && !chain.empty() ? chain.back() : p());
      for (bool close : {false, true}) {
        const auto ls = getLineSegments(chain, close);
        std::size_t want = 0;
        bool ok = true;
        auto check = [&](const P3 & s0, const P3 & s1) { if (s0 == s1) return; ok = ok && want < ls.size() && ls[want].start_point == s0 && ls[want].end_point == s1; ++want; };
        for (std::size_t i = 0; i + 1 < chain.size(); ++i) check(chain[i], chain[i + 1]);
        if (close && chain.size() > 1) check(chain.back(), chain[0]);
        if (!ok || ls.size() != want) fail("segments-of-points", cat(close, " ", text(chain)));
      }
    }
    // ---- polygons
    {
      const bool ints = g.chance(.3);
      const double s = ints ? 6 : std::pow(10.0, g.r(-1, 3));
      std::vector<P3> pts;
      const auto n = g.i(3, 14);
      for (int i = 0; i < n; ++i) pts.push_back(ints ? pt(double(g.i(-6, 6)), double(g.i(-6, 6)), double(g.i(-6, 6))) : pt(g.r(-s, s), g.r(-s, s), g.r(-s, s)));
      const auto w = "points " + text(pts);
      vh::current(w); vh::observed(w);
      for (auto ax : {Axis::X, Axis::Y, Axis::Z}) {
        auto get = [&](const P3 & q) { return ax == Axis::X ? q.x : ax == Axis::Y ? q.y : q.z; };
        const auto f = filterByAxis(pts, ax);
        double lo = 1e300, hi = -1e300;
        bool ok = f.size() == pts.size();
        for (std::size_t i = 0; i < pts.size(); ++i) { lo = std::min(lo, get(pts[i])); hi = std::max(hi, get(pts[i])); ok = ok && f[i] == get(pts[i]); }
        if (!ok || getMinValue(pts, ax) != lo || getMaxValue(pts, ax) != hi) fail("extremes", w);
      }
      bool flat = true;
      L area2 = 0;
      for (std::size_t i = 2; i < pts.size(); ++i) for (std::size_t j = 1; j < i; ++j) area2 = std::max(area2, std::abs(cross(v2(pts[0]), v2(pts[j]), v2(pts[i]))));
      flat = area2 < 1e-6L * s * s;
      if (!flat) {
        auto h = get2DConvexHull(pts);
        Ring ring;
        for (auto & q : h) ring.push_back(v2(q));
        if (ring.size() > 1 && ring.front().x == ring.back().x && ring.front().y == ring.back().y) ring.pop_back();
        const L eps = 1e-9L * s;
        if (ring.size() < 3) fail("hull-degenerate", w);
        else {
          for (auto & q : h) if (std::none_of(pts.begin(), pts.end(), [&](auto & o) { return o.x == q.x && o.y == q.y; }) || q.z != 0) { fail("hull-invents", w); break; }
          int pos = 0, neg = 0;
          for (std::size_t i = 0; i < ring.size(); ++i) { L t = cross(ring[i], ring[(i + 1) % ring.size()], ring[(i + 2) % ring.size()]); pos += t > eps * s; neg += t < -eps * s; }
          if (pos && neg) fail("hull-not-convex", w);
          for (auto & q : pts) if (!inside(ring, v2(q)) && rim(ring, v2(q)) > eps) { fail("hull-excludes", w); break; }
          // inside and outside, distances, of convex and of star-shaped polygons
          std::vector<P3> poly = h;
          if (g.chance(.5)) { const V m{(pts[0].x + ring[0].x) / 2, (pts[0].y + ring[0].y) / 2}; (void)m; poly.clear(); for (int i = 0; i < n; ++i) { const double t = -2 * M_PI * (i + g.r(0, .9)) / double(n), r = s * g.r(.2, 1); poly.push_back(pt(r * std::cos(t), r * std::sin(t))); } poly.push_back(poly[0]); }
          else if (poly.front().x != poly.back().x || poly.front().y != poly.back().y) poly.push_back(poly[0]);
          Ring pr;
          for (std::size_t i = 0; i + 1 < poly.size(); ++i) pr.push_back(v2(poly[i]));
          for (int i = 0; i < 6; ++i) {
            const P3 q = ints ? pt(double(g.i(-7, 7)), double(g.i(-7, 7))) : pt(g.r(-s, s), g.r(-s, s));
            if (rim(pr, v2(q)) < eps) continue;
            const bool in = inside(pr, v2(q));
            if (contains(poly, q) != in) fail("contains", cat(text({q}), " in ", text(poly)));
            count(in ? "inside" : "outside");
          }
          std::vector<P3> other = poly;
          const double mx = g.r(-3, 3) * s, my = g.r(-3, 3) * s;
          for (auto & q : other) { q.x += mx; q.y += my; }
          Ring orr;
          for (std::size_t i = 0; i + 1 < other.size(); ++i) orr.push_back(v2(other[i]));
          const L d = gap(pr, orr);
          const double gd = getDistance2D(poly, other), rd = getDistance2D(other, poly);
          if (d > eps || (d == 0)) if (std::abs(gd - d) > 10 * eps || std::abs(rd - d) > 10 * eps) fail("polygon-distance", cat(gd, " and ", rd, " instead of ", double(d), " between ", text(poly), " and ", text(other)));
          count(d > 0 ? "polygons.apart" : "polygons.overlapping");
        }
      }
    }
    } catch (const std::exception & e) { fail("exception", cat(e.what(), " at ", vh::case_buffer())); }
  }
  for (auto ax : {Axis::X, Axis::Y, Axis::Z}) {
    try { getMinValue({}, ax); fail("min-of-nothing", ""); } catch (const common::SimulationError &) {}
    try { getMaxValue({}, ax); fail("max-of-nothing", ""); } catch (const common::SimulationError &) {}
  }
  vh::finish();
}
