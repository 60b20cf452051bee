// C18: rotations, poses and vectors against rotation matrices computed here in long double.
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <vector>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/vector3/vector3.hpp>
#include <geometry/quaternion/direction_to_quaternion.hpp>
#include <geometry/quaternion/get_angle_difference.hpp>
#include <geometry/quaternion/get_normal_vector.hpp>
#include <geometry/quaternion/operator.hpp>
#include <geometry/quaternion/get_rotation.hpp>
#include <geometry/quaternion/get_rotation_matrix.hpp>
#include <geometry/quaternion/make_quaternion.hpp>
#include <geometry/quaternion/norm.hpp>
#include <geometry/quaternion/normalize.hpp>
#include <geometry/quaternion/slerp.hpp>
#include <geometry/vector3/cross_2d.hpp>
#include <geometry/vector3/hypot.hpp>
#include <geometry/vector3/inner_product.hpp>
#include <geometry/vector3/norm.hpp>
#include <geometry/vector3/internal_angle.hpp>
#include <geometry/vector3/is_finite.hpp>
#include <geometry/vector3/operator.hpp>
#include <geometry/vector3/normalize.hpp>
#include <geometry/vector3/ros_msg_converter.hpp>
#include <geometry/vector3/scalar_to_direction_vector.hpp>
#include <geometry/vector3/truncate.hpp>
#include <geometry/plane.hpp>
#include <geometry/transform.hpp>
#include "vh.hpp"
using vh::cat; using vh::fail; using vh::count;
using namespace math::geometry;
using L = long double;
using Q = geometry_msgs::msg::Quaternion;
using V3 = geometry_msgs::msg::Vector3;
using P3 = geometry_msgs::msg::Point;
using Pose = geometry_msgs::msg::Pose;
struct M { L a[3][3]; };
static M mul(const M & x, const M & y) { M r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; return r; }
static M tr(const M & x) { M r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = x.a[j][i]; return r; }
static L diff(const M & x, const M & y) { L d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d = std::max(d, std::abs(x.a[i][j] - y.a[i][j])); return d; }
static M euler(L r, L p, L y)
{
  M z{{{std::cos(y), -std::sin(y), 0}, {std::sin(y), std::cos(y), 0}, {0, 0, 1}}};
  M Y{{{std::cos(p), 0, std::sin(p)}, {0, 1, 0}, {-std::sin(p), 0, std::cos(p)}}};
  M x{{{1, 0, 0}, {0, std::cos(r), -std::sin(r)}, {0, std::sin(r), std::cos(r)}}};
  return mul(z, mul(Y, x));
}
// by Rodrigues from the axis and angle of the quaternion, not by the product formula
static M rot(const Q & q)
{
  L n = std::sqrt(L(q.x) * q.x + L(q.y) * q.y + L(q.z) * q.z), w = q.w;
  if (n == 0) return M{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
  L t = 2 * std::atan2(n, w), x = q.x / n, y = q.y / n, z = q.z / n, c = std::cos(t), s = std::sin(t), k = 1 - c;
  return M{{{c + x * x * k, x * y * k - z * s, x * z * k + y * s}, {y * x * k + z * s, c + y * y * k, y * z * k - x * s}, {z * x * k - y * s, z * y * k + x * s, c + z * z * k}}};
}
static L angle(const M & m)
{
  L sx = m.a[2][1] - m.a[1][2], sy = m.a[0][2] - m.a[2][0], sz = m.a[1][0] - m.a[0][1];
  return std::atan2(std::sqrt(sx * sx + sy * sy + sz * sz), m.a[0][0] + m.a[1][1] + m.a[2][2] - 1);
}
static std::array<L, 3> app(const M & m, L x, L y, L z) { return {m.a[0][0] * x + m.a[0][1] * y + m.a[0][2] * z, m.a[1][0] * x + m.a[1][1] * y + m.a[1][2] * z, m.a[2][0] * x + m.a[2][1] * y + m.a[2][2] * z}; }
static M ofEigen(const Eigen::Matrix3d & e) { M r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = e(i, j); return r; }
static std::string text(const Q & q) { return cat("[", q.x, " ", q.y, " ", q.z, " ", q.w, "]"); }
template <class T> static std::string text3(const T & q) { return cat("(", q.x, " ", q.y, " ", q.z, ")"); }
static bool near(L a, L b, L scale = 1, L rel = 1e-9L) { return std::abs(a - b) <= rel * scale + 1e-300L; }

int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng g(vh::st().seed);
  const auto N = vh::n(60000, 3000000);
  auto special = [&] { static const double a[] = {0, M_PI / 4, M_PI_2, M_PI, -M_PI_2, -M_PI, 1e-9, -1e-5, M_PI - 1e-7, M_PI_2 - 1e-6}; return a[std::size_t(g.i(0, 9))]; };
  auto anglev = [&] { return g.chance(.3) ? special() : g.r(-M_PI, M_PI); };
  auto euler_q = [&] { V3 v; v.x = g.chance(.5) ? 0 : anglev(); v.y = g.chance(.5) ? 0 : anglev() / 2; v.z = anglev(); return convertEulerAngleToQuaternion(v); };
  auto quat = [&] {
    if (g.chance(.4)) return euler_q();
    Q q;
    do { q.x = g.r(-1, 1); q.y = g.r(-1, 1); q.z = g.r(-1, 1); q.w = g.r(-1, 1); } while (norm(q) < .1);
    return normalize(q);
  };
  auto scale = [&] { return std::pow(10.0, g.r(-6, 6)); };
  auto vec = [&] {
    V3 v;
    const double s = scale();
    v.x = g.r(-s, s); v.y = g.r(-s, s); v.z = g.r(-s, s);
    if (g.chance(.15)) v.z = 0;
    if (g.chance(.1)) v.x = 0;
    if (g.chance(.1)) v.y = 0;
    return v;
  };
  for (std::uint64_t k = 0; k < N; ++k) {
    try {
    // ---- Euler angles
    {
      V3 v;
      v.x = anglev(); v.y = g.chance(.2) ? special() / 2 : g.r(-M_PI_2, M_PI_2); v.z = anglev();
      const auto w = text3(v);
      vh::current(w); vh::observed(w);
      if (k < 2) vh::sample("euler " + w);
      const Q q = convertEulerAngleToQuaternion(v);
      if (!near(norm(q), 1, 1, 1e-14L)) fail("euler-not-unit", w);
      if (diff(rot(q), euler(v.x, v.y, v.z)) > 1e-12L) fail("euler-to-quaternion", cat(w, " gives ", text(q)));
      const V3 b = convertQuaternionToEulerAngle(q);
      if (std::abs(std::abs(v.y) - M_PI_2) > 1e-3 && diff(euler(b.x, b.y, b.z), rot(q)) > 1e-6L) fail("quaternion-to-euler", cat(w, " comes back as ", text3(b)));
      if (std::abs(v.y) < M_PI_2 - 1e-3 && (std::abs(std::remainder(b.x - v.x, 2 * M_PI)) > 1e-6 || std::abs(b.y - v.y) > 1e-6 || std::abs(std::remainder(b.z - v.z, 2 * M_PI)) > 1e-6))
        fail("euler-round-trip", cat(w, " comes back as ", text3(b)));
      count("euler");
    }
    // ---- products, relative rotations, matrices
    {
      const Q a = quat(), b = g.chance(.1) ? a : quat();
      const auto w = cat(text(a), " ", text(b));
      vh::current(w);
      if (k < 2) vh::sample("pair " + w);
      const M ma = rot(a), mb = rot(b);
      if (diff(ofEigen(getRotationMatrix(a)), ma) > 1e-12L) fail("matrix", w);
      if (diff(rot(a * b), mul(ma, mb)) > 1e-12L) fail("product", w);
      const auto rel = getRotation(a, b);
      if (diff(rot(rel), mul(tr(ma), mb)) > 1e-12L) fail("relative-rotation", w);
      if (diff(mul(ma, rot(rel)), mb) > 1e-12L) fail("relative-rotation-inverse", w);
      const L ang = angle(mul(tr(ma), mb));
      if (!near(getAngleDifference(a, b), ang, 1, 2e-7L)) fail("angle-difference", cat(w, " differ by ", getAngleDifference(a, b), " instead of ", double(ang)));
      if (!near(getAngleDifference(a, b), getAngleDifference(b, a), 1, 1e-9L)) fail("angle-difference-order", w);
      const auto nv = getNormalVector(a);
      auto up = app(ma, 0, 0, 1);
      if (!near(nv.x, up[0]) || !near(nv.y, up[1]) || !near(nv.z, up[2])) fail("normal-vector", w);
      const auto s = a + b, d = a - b;
      auto acc = a; acc += b;
      if (s.x != a.x + b.x || s.y != a.y + b.y || s.z != a.z + b.z || s.w != a.w + b.w || d.x != a.x - b.x || d.y != a.y - b.y || d.z != a.z - b.z || d.w != a.w - b.w || acc.x != s.x || acc.y != s.y || acc.z != s.z || acc.w != s.w)
        fail("quaternion-sum", w);
      const double f = scale();
      const auto mq = makeQuaternion(a.x * f, a.y * f, a.z * f, a.w * f);
      if (mq.x != a.x * f || mq.y != a.y * f || mq.z != a.z * f || mq.w != a.w * f) fail("make-quaternion", w);
      if (!near(norm(mq), f, f, 1e-12L)) fail("quaternion-norm", w);
      const auto nq = normalize(mq);
      if (!near(nq.x, a.x) || !near(nq.y, a.y) || !near(nq.z, a.z) || !near(nq.w, a.w)) fail("quaternion-normalize", w);
      // interpolation, also for quaternions whose length is off by a few units of rounding
      Q a1 = a, b1 = g.chance(.15) ? a : b;
      if (g.chance(.1)) { b1.x = -b1.x; b1.y = -b1.y; b1.z = -b1.z; b1.w = -b1.w; }
      if (g.chance(.2)) { const double e = 1 + double(g.i(-8, 8)) * 2.220446049250313e-16; a1.x *= e; a1.y *= e; a1.z *= e; a1.w *= e; }
      const L whole = angle(mul(tr(rot(a1)), rot(b1)));
      const double t = g.chance(.2) ? double(g.i(0, 1)) : g.r(0, 1);
      const auto i = slerp(a1, b1, t);
      const auto wi = cat("slerp(", text(a1), ", ", text(b1), ", ", t, ") = ", text(i));
      if (!std::isfinite(i.x + i.y + i.z + i.w)) fail("slerp-not-finite", wi);
      else {
        const L from = angle(mul(tr(rot(a1)), rot(i))), to = angle(mul(tr(rot(i)), rot(b1)));
        if (std::abs(L(norm(i)) - 1) > 1e-6L) fail("slerp-not-unit", wi);
        // just before half a turn either way is the shortest
        if (whole < M_PI - 1e-3 && (std::abs(from - whole * t) > 1e-6L || std::abs(to - whole * (1 - t)) > 1e-6L)) fail("slerp-rate", cat(wi, " is ", double(from), " from the start and ", double(to), " from the end, which are ", double(whole), " apart"));
        count(whole > M_PI_2 ? "slerp.wide" : "slerp");
      }
      count("pairs");
    }
    // ---- directions
    {
      const V3 v = vec();
      const auto w = text3(v);
      vh::current(w);
      const double n = norm(v);
      if (n > 1e-6) {
        const Q q = convertDirectionToQuaternion(v), q2 = convertDirectionToQuaternion(v.x, v.y, v.z);
        auto f = app(rot(q), 1, 0, 0), side = app(rot(q), 0, 1, 0);
        if (!near(f[0] * n, v.x, n) || !near(f[1] * n, v.y, n) || !near(f[2] * n, v.z, n) || diff(rot(q), rot(q2)) > 1e-12L) fail("direction", cat(w, " gives ", text(q)));
        if (std::abs(side[2]) > 1e-9L) fail("direction-rolls", w);
        const double m = g.r(-50, 50);
        const auto s = scalarToDirectionVector(m, q);
        if (!near(s.x * n, m * v.x, 50 * n, 1e-6L) || !near(s.y * n, m * v.y, 50 * n, 1e-6L) || !near(s.z * n, m * v.z, 50 * n, 1e-6L)) fail("scalar-to-direction", cat(w, " ", m, " gives ", text3(s)));
        const Q r = euler_q();   // roll does not matter
        const auto sr = scalarToDirectionVector(m, r);
        auto fr = app(rot(r), m, 0, 0);
        if (!near(sr.x, fr[0], 50, 1e-6L) || !near(sr.y, fr[1], 50, 1e-6L) || !near(sr.z, fr[2], 50, 1e-6L)) fail("scalar-to-direction-rolled", cat(text(r), " ", m, " gives ", text3(sr)));
      }
    }
    // ---- poses
    {
      const double far = g.chance(.2) ? 1e5 : 100;
      auto pose = [&] { Pose p; p.position.x = g.r(-far, far); p.position.y = g.r(-far, far); p.position.z = g.r(-far / 10, far / 10); p.orientation = quat(); return p; };
      const Pose a = pose(), b = g.chance(.05) ? a : pose();
      const auto w = cat(text3(a.position), text(a.orientation), " and ", text3(b.position), text(b.orientation));
      vh::current(w); vh::observed(w);
      if (k < 2) vh::sample("poses " + w);
      const M ma = rot(a.orientation), mb = rot(b.orientation);
      const Pose r = getRelativePose(a, b);
      auto e = app(tr(ma), L(b.position.x) - a.position.x, L(b.position.y) - a.position.y, L(b.position.z) - a.position.z);
      if (!near(r.position.x, e[0], far) || !near(r.position.y, e[1], far) || !near(r.position.z, e[2], far)) fail("relative-position", cat(w, " gives ", text3(r.position)));
      if (diff(rot(r.orientation), mul(tr(ma), mb)) > 1e-9L) fail("relative-orientation", w);
      const P3 back = transformPoint(a, r.position);
      if (!near(back.x, b.position.x, far) || !near(back.y, b.position.y, far) || !near(back.z, b.position.z, far)) fail("there-and-back", w);
      if (diff(mul(ma, rot(r.orientation)), mb) > 1e-9L) fail("there-and-back-orientation", w);
      const Pose inv = getRelativePose(b, a), c = pose(), rc = getRelativePose(b, c), ac = getRelativePose(a, c);
      const P3 chained = transformPoint(r, rc.position), id = transformPoint(r, inv.position);
      if (!near(chained.x, ac.position.x, far * 4) || !near(chained.y, ac.position.y, far * 4) || !near(chained.z, ac.position.z, far * 4)) fail("chain", w);
      if (!near(id.x, 0, far * 4) || !near(id.y, 0, far * 4) || !near(id.z, 0, far * 4)) fail("inverse", w);
      // a point, several points
      std::vector<P3> ps;
      for (auto n = g.i(0, 5); n-- > 0;) ps.push_back(castToPoint(vec()));
      const auto ts = transformPoints(a, ps);
      if (ts.size() != ps.size()) fail("transform-points", w);
      else for (std::size_t i = 0; i < ps.size(); ++i) {
        auto x = app(ma, ps[i].x, ps[i].y, ps[i].z);
        const L sc = std::abs(L(ps[i].x)) + std::abs(L(ps[i].y)) + std::abs(L(ps[i].z)) + far;
        const auto one = transformPoint(a, ps[i]);
        if (!near(ts[i].x, x[0] + a.position.x, sc) || !near(ts[i].y, x[1] + a.position.y, sc) || !near(ts[i].z, x[2] + a.position.z, sc)) fail("transform-point", cat(text3(ps[i]), " by ", w));
        if (one.x != ts[i].x || one.y != ts[i].y || one.z != ts[i].z) fail("transform-points-differ", w);
      }
      // relative to a sensor that is not turned, a point is where it is seen from the sensor's position
      Pose sensor = pose(); sensor.orientation = Q();
      const auto ss = transformPoints(a, sensor, ps);
      if (ss.size() != ps.size()) fail("sensor-points", w);
      else for (std::size_t i = 0; i < ps.size(); ++i) {
        const L sc = std::abs(L(ps[i].x)) + std::abs(L(ps[i].y)) + std::abs(L(ps[i].z)) + 2 * far;
        if (!near(ss[i].x, L(ts[i].x) - sensor.position.x, sc) || !near(ss[i].y, L(ts[i].y) - sensor.position.y, sc) || !near(ss[i].z, L(ts[i].z) - sensor.position.z, sc)) fail("sensor-point", w);
        const auto one = transformPoint(a, sensor, ps[i]);
        if (one.x != ss[i].x || one.y != ss[i].y || one.z != ss[i].z) fail("sensor-points-differ", w);
      }
      // planes
      const V3 nv = vec();
      if (norm(nv) > 0) {
        const Plane pl(a.position, nv);
        const L want = L(nv.x) * (L(b.position.x) - a.position.x) + L(nv.y) * (L(b.position.y) - a.position.y) + L(nv.z) * (L(b.position.z) - a.position.z);
        if (!near(pl.offset(b.position), want, norm(nv) * far * 4, 1e-12L)) fail("plane-offset", w);
      }
      count("poses");
    }
    // ---- vectors
    {
      const V3 a = vec(), b = g.chance(.3) ? V3(a * g.r(-3, 3)) : vec();
      const auto w = cat(text3(a), " ", text3(b));
      vh::current(w); vh::observed(w);
      if (k < 2) vh::sample("vectors " + w);
      const double f = g.chance(.1) ? 3 : g.r(-9, 9), big = std::max(norm(a), norm(b));
      const P3 p = castToPoint(a);
      if (castToVec(p).x != a.x || castToVec(p).y != a.y || castToVec(p).z != a.z || p.x != a.x || p.y != a.y || p.z != a.z) fail("cast", w);
      auto same = [&](const char * key, const auto & v, L x, L y, L z, L sc) { if (!near(v.x, x, sc, 1e-14L) || !near(v.y, y, sc, 1e-14L) || !near(v.z, z, sc, 1e-14L)) fail(key, w); };
      same("sum", a + b, L(a.x) + b.x, L(a.y) + b.y, L(a.z) + b.z, big);
      same("sum-point", p + b, L(a.x) + b.x, L(a.y) + b.y, L(a.z) + b.z, big);
      same("difference", a - b, L(a.x) - b.x, L(a.y) - b.y, L(a.z) - b.z, big);
      same("difference-point", p - b, L(a.x) - b.x, L(a.y) - b.y, L(a.z) - b.z, big);
      same("product-scalar", a * f, L(a.x) * f, L(a.y) * f, L(a.z) * f, big * 9);
      same("product-scalar-point", p * f, L(a.x) * f, L(a.y) * f, L(a.z) * f, big * 9);
      if (f != 0) { same("quotient", a / f, L(a.x) / f, L(a.y) / f, L(a.z) / f, big / std::abs(f)); same("quotient-point", p / f, L(a.x) / f, L(a.y) / f, L(a.z) / f, big / std::abs(f)); }
      same("sum-eigen", a + Eigen::Vector3d(b.x, b.y, b.z), L(a.x) + b.x, L(a.y) + b.y, L(a.z) + b.z, big);
      V3 acc = a; acc += b;
      same("accumulate", acc, L(a.x) + b.x, L(a.y) + b.y, L(a.z) + b.z, big);
      const L na = std::sqrt(L(a.x) * a.x + L(a.y) * a.y + L(a.z) * a.z), nb = std::sqrt(L(b.x) * b.x + L(b.y) * b.y + L(b.z) * b.z), ip = L(a.x) * b.x + L(a.y) * b.y + L(a.z) * b.z;
      if (!near(norm(a), na, na, 1e-14L)) fail("norm", w);
      if (!near(innerProduct(a, b), ip, na * nb, 1e-14L)) fail("inner-product", w);
      if (!near(cross2d(a, b), L(a.x) * b.y - L(a.y) * b.x, na * nb, 1e-14L)) fail("cross-2d", w);
      const L dx = L(b.x) - a.x, dy = L(b.y) - a.y, dz = L(b.z) - a.z;
      if (!near(hypot(a, b), std::sqrt(dx * dx + dy * dy + dz * dz), big)) fail("hypot", w);
      if (na > 1e-9L) {
        const auto u = normalize(a);
        same("normalize", u, a.x / na, a.y / na, a.z / na, 1e2);
        if (nb > 1e-9L) {
          const L cx = L(a.y) * b.z - L(a.z) * b.y, cy = L(a.z) * b.x - L(a.x) * b.z, cz = L(a.x) * b.y - L(a.y) * b.x;
          const L want = std::atan2(std::sqrt(cx * cx + cy * cy + cz * cz), ip);
          try {
            if (!near(getInternalAngle(a, b), want, 1, 1e-6L)) fail("internal-angle", cat(w, " gives ", getInternalAngle(a, b), " instead of ", double(want)));
          } catch (const common::SimulationError & e) { fail("internal-angle-refused", cat(w, ": ", e.what())); }
        }
      }
      const double lim = g.chance(.3) ? double(na) * g.r(.5, 1.5) : scale();
      const auto t = truncate(a, lim);
      if (na <= lim * (1 - 1e-12L)) same("truncate-short", t, a.x, a.y, a.z, na);
      else if (na > lim * (1 + 1e-12L) && (!near(t.x * na, lim * L(a.x), lim * na) || !near(t.y * na, lim * L(a.y), lim * na) || !near(t.z * na, lim * L(a.z), lim * na))) fail("truncate", cat(w, " to ", lim, " gives ", text3(t)));
      V3 nf = a;
      if (!math::geometry::isfinite(nf)) fail("finite", w);
      for (double * c : {&nf.x, &nf.y, &nf.z}) { const double keep = *c; for (double bad : {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan("")}) { *c = bad; if (math::geometry::isfinite(nf)) fail("not-finite", w); } *c = keep; }
      count("vectors");
    }
    } catch (const std::exception & e) { fail("exception", cat(e.what(), " at ", vh::case_buffer())); }
  }
  // refusals
  auto refuses = [](const char * key, auto f) { try { f(); fail(key, "accepted"); } catch (const common::SimulationError &) {} };
  refuses("normalize-zero", [] { (void)normalize(V3()); });
  refuses("normalize-zero-quaternion", [] { Q q; q.w = 0; (void)normalize(q); });
  refuses("internal-angle-zero", [] { V3 a; a.x = 1; (void)getInternalAngle(a, V3()); });
  refuses("plane-zero", [] { Plane(P3(), V3()); });
  refuses("plane-nan", [] { P3 p; p.x = std::nan(""); V3 v; v.x = 1; Plane(p, v); });
  vh::finish();
}
