// Stand-in for tf2's linear algebra (same formulas as the Bullet code tf2 carries).
#ifndef VERIF_TF2_LINEARMATH_H_
#define VERIF_TF2_LINEARMATH_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
typedef double tf2Scalar;
namespace tf2
{
class Vector3
{
public:
  double m[4];
  Vector3() : m{0, 0, 0, 0} {}
  Vector3(double x, double y, double z) : m{x, y, z, 0} {}
  double x() const { return m[0]; }
  double y() const { return m[1]; }
  double z() const { return m[2]; }
  double getX() const { return m[0]; }
  double getY() const { return m[1]; }
  double getZ() const { return m[2]; }
  void setX(double v) { m[0] = v; }
  void setY(double v) { m[1] = v; }
  void setZ(double v) { m[2] = v; }
  void setValue(double x, double y, double z) { m[0] = x; m[1] = y; m[2] = z; }
  double & operator[](int i) { return m[i]; }
  double operator[](int i) const { return m[i]; }
  double dot(const Vector3 & o) const { return m[0] * o.m[0] + m[1] * o.m[1] + m[2] * o.m[2]; }
  Vector3 cross(const Vector3 & o) const { return {m[1] * o.m[2] - m[2] * o.m[1], m[2] * o.m[0] - m[0] * o.m[2], m[0] * o.m[1] - m[1] * o.m[0]}; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Vector3 & operator+=(const Vector3 & o) { for (int i = 0; i < 3; ++i) m[i] += o.m[i]; return *this; }
  Vector3 & operator-=(const Vector3 & o) { for (int i = 0; i < 3; ++i) m[i] -= o.m[i]; return *this; }
  Vector3 & operator*=(double s) { for (int i = 0; i < 3; ++i) m[i] *= s; return *this; }
  Vector3 & operator/=(double s) { return *this *= 1.0 / s; }
  Vector3 & normalize() { return *this /= length(); }
  Vector3 normalized() const { Vector3 v = *this; return v.normalize(); }
};
inline Vector3 operator+(Vector3 a, const Vector3 & b) { return a += b; }
inline Vector3 operator-(Vector3 a, const Vector3 & b) { return a -= b; }
inline Vector3 operator-(const Vector3 & a) { return {-a.x(), -a.y(), -a.z()}; }
inline Vector3 operator*(Vector3 a, double s) { return a *= s; }
inline Vector3 operator*(double s, Vector3 a) { return a *= s; }
inline Vector3 operator/(Vector3 a, double s) { return a /= s; }

class Quaternion
{
public:
  double m[4];
  Quaternion() : m{0, 0, 0, 0} {}
  Quaternion(double x, double y, double z, double w) : m{x, y, z, w} {}
  Quaternion(const Vector3 & axis, double angle) { setRotation(axis, angle); }
  double x() const { return m[0]; }
  double y() const { return m[1]; }
  double z() const { return m[2]; }
  double w() const { return m[3]; }
  double getX() const { return m[0]; }
  double getY() const { return m[1]; }
  double getZ() const { return m[2]; }
  double getW() const { return m[3]; }
  void setValue(double x, double y, double z, double w) { m[0] = x; m[1] = y; m[2] = z; m[3] = w; }
  void setRotation(const Vector3 & axis, double angle)
  {
    double s = std::sin(angle * 0.5) / axis.length();
    setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  double dot(const Quaternion & q) const { return m[0] * q.m[0] + m[1] * q.m[1] + m[2] * q.m[2] + m[3] * q.m[3]; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion & normalize() { double l = length(); for (double & v : m) v /= l; return *this; }
  Quaternion normalized() const { Quaternion q = *this; return q.normalize(); }
  Quaternion inverse() const { return {-m[0], -m[1], -m[2], m[3]}; }
  double getAngle() const { return 2 * std::acos(std::clamp(m[3], -1.0, 1.0)); }
  Quaternion & operator*=(const Quaternion & q);
};
inline Quaternion operator*(const Quaternion & a, const Quaternion & b)
{
  return {a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() + a.y() * b.w() + a.z() * b.x() - a.x() * b.z(),
    a.w() * b.z() + a.z() * b.w() + a.x() * b.y() - a.y() * b.x(), a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z()};
}
inline Quaternion operator*(const Quaternion & q, const Vector3 & w)
{
  return {q.w() * w.x() + q.y() * w.z() - q.z() * w.y(), q.w() * w.y() + q.z() * w.x() - q.x() * w.z(),
    q.w() * w.z() + q.x() * w.y() - q.y() * w.x(), -q.x() * w.x() - q.y() * w.y() - q.z() * w.z()};
}
inline Quaternion & Quaternion::operator*=(const Quaternion & q) { return *this = *this * q; }
inline Vector3 quatRotate(const Quaternion & r, const Vector3 & v)
{
  Quaternion q = r * v;
  q *= r.inverse();
  return {q.x(), q.y(), q.z()};
}

class Matrix3x3
{
  Vector3 r[3];
public:
  Matrix3x3() = default;
  explicit Matrix3x3(const Quaternion & q) { setRotation(q); }
  Matrix3x3(double a, double b, double c, double d, double e, double f, double g, double h, double i) : r{{a, b, c}, {d, e, f}, {g, h, i}} {}
  Vector3 & operator[](int i) { return r[i]; }
  const Vector3 & operator[](int i) const { return r[i]; }
  Vector3 getColumn(int i) const { return {r[0][i], r[1][i], r[2][i]}; }
  void setIdentity() { *this = Matrix3x3(1, 0, 0, 0, 1, 0, 0, 0, 1); }
  void setRotation(const Quaternion & q)
  {
    double s = 2.0 / q.length2();
    double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    *this = Matrix3x3(1 - (yy + zz), xy - wz, xz + wy, xy + wz, 1 - (xx + zz), yz - wx, xz - wy, yz + wx, 1 - (xx + yy));
  }
  void getRPY(double & roll, double & pitch, double & yaw, unsigned = 1) const { getEulerYPR(yaw, pitch, roll); }
  void getEulerYPR(double & yaw, double & pitch, double & roll, unsigned = 1) const
  {
    const double half = 1.57079632679489661923;
    if (std::fabs(r[2].x()) >= 1) {
      yaw = 0;
      double delta = std::atan2(r[2].y(), r[2].z());
      if (r[2].x() < 0) { pitch = half; roll = delta; } else { pitch = -half; roll = delta; }
    } else {
      pitch = -std::asin(r[2].x());
      roll = std::atan2(r[2].y() / std::cos(pitch), r[2].z() / std::cos(pitch));
      yaw = std::atan2(r[1].x() / std::cos(pitch), r[0].x() / std::cos(pitch));
    }
  }
  void getRotation(Quaternion & q) const
  {
    double trace = r[0].x() + r[1].y() + r[2].z(), t[4];
    if (trace > 0) {
      double s = std::sqrt(trace + 1);
      t[3] = s * 0.5; s = 0.5 / s;
      t[0] = (r[2].y() - r[1].z()) * s; t[1] = (r[0].z() - r[2].x()) * s; t[2] = (r[1].x() - r[0].y()) * s;
    } else {
      int i = r[0].x() < r[1].y() ? (r[1].y() < r[2].z() ? 2 : 1) : (r[0].x() < r[2].z() ? 2 : 0), j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(r[i][i] - r[j][j] - r[k][k] + 1);
      t[i] = s * 0.5; s = 0.5 / s;
      t[3] = (r[k][j] - r[j][k]) * s; t[j] = (r[j][i] + r[i][j]) * s; t[k] = (r[k][i] + r[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  Matrix3x3 transpose() const { return {r[0][0], r[1][0], r[2][0], r[0][1], r[1][1], r[2][1], r[0][2], r[1][2], r[2][2]}; }
};
inline Vector3 operator*(const Matrix3x3 & a, const Vector3 & v) { return {a[0].dot(v), a[1].dot(v), a[2].dot(v)}; }
inline Matrix3x3 operator*(const Matrix3x3 & a, const Matrix3x3 & b)
{
  Matrix3x3 o;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o[i][j] = a[i].dot(b.getColumn(j));
  return o;
}

class Transform
{
  Matrix3x3 basis;
  Vector3 origin;
public:
  Transform() = default;
  explicit Transform(const Quaternion & q, const Vector3 & o = Vector3()) : basis(q), origin(o) {}
  Transform(const Matrix3x3 & b, const Vector3 & o) : basis(b), origin(o) {}
  void setIdentity() { basis.setIdentity(); origin = Vector3(); }
  void setOrigin(const Vector3 & o) { origin = o; }
  void setRotation(const Quaternion & q) { basis.setRotation(q); }
  const Vector3 & getOrigin() const { return origin; }
  const Matrix3x3 & getBasis() const { return basis; }
  Quaternion getRotation() const { Quaternion q; basis.getRotation(q); return q; }
  Transform inverse() const { auto i = basis.transpose(); return Transform(i, i * -origin); }
  Vector3 operator()(const Vector3 & v) const { return basis * v + origin; }
  Vector3 operator*(const Vector3 & v) const { return (*this)(v); }
  Transform operator*(const Transform & t) const { return Transform(basis * t.basis, (*this)(t.origin)); }
};
}  // namespace tf2
#endif
