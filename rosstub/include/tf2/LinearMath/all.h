// Stand-in for tf2 LinearMath (double precision, same formulas as the Bullet-derived original).
#pragma once
#include <cmath>
#include <cassert>
#include <algorithm>
typedef double tf2Scalar;
#define TF2SIMD_EPSILON 2.2204460492503131e-16
namespace tf2
{
class Vector3
{
public:
  double m_floats[4];
  Vector3() { m_floats[0] = m_floats[1] = m_floats[2] = m_floats[3] = 0; }
  Vector3(const double& x, const double& y, const double& z) { setValue(x, y, z); }
  void setValue(const double& x, const double& y, const double& z) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = 0; }
  double x() const { return m_floats[0]; }
  double y() const { return m_floats[1]; }
  double z() const { return m_floats[2]; }
  double w() const { return m_floats[3]; }
  const double& getX() const { return m_floats[0]; }
  const double& getY() const { return m_floats[1]; }
  const double& getZ() const { return m_floats[2]; }
  void setX(double v) { m_floats[0] = v; }
  void setY(double v) { m_floats[1] = v; }
  void setZ(double v) { m_floats[2] = v; }
  void setZero() { setValue(0, 0, 0); }
  double& operator[](int i) { return m_floats[i]; }
  const double& operator[](int i) const { return m_floats[i]; }
  operator double*() { return m_floats; }
  operator const double*() const { return m_floats; }
  Vector3& operator+=(const Vector3& v) { for (int i = 0; i < 3; i++) m_floats[i] += v.m_floats[i]; return *this; }
  Vector3& operator-=(const Vector3& v) { for (int i = 0; i < 3; i++) m_floats[i] -= v.m_floats[i]; return *this; }
  Vector3& operator*=(const double& s) { for (int i = 0; i < 3; i++) m_floats[i] *= s; return *this; }
  Vector3& operator/=(const double& s) { return *this *= 1.0 / s; }
  double dot(const Vector3& v) const { return x() * v.x() + y() * v.y() + z() * v.z(); }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  double distance2(const Vector3& v) const { Vector3 d(v.x() - x(), v.y() - y(), v.z() - z()); return d.length2(); }
  double distance(const Vector3& v) const { return std::sqrt(distance2(v)); }
  Vector3& normalize() { return *this /= length(); }
  Vector3 normalized() const { Vector3 v(*this); v /= v.length(); return v; }
  Vector3 cross(const Vector3& v) const { return Vector3(y() * v.z() - z() * v.y(), z() * v.x() - x() * v.z(), x() * v.y() - y() * v.x()); }
  double angle(const Vector3& v) const { return std::acos(dot(v) / std::sqrt(length2() * v.length2())); }
  Vector3 lerp(const Vector3& v, const double& t) const { return Vector3(x() + (v.x() - x()) * t, y() + (v.y() - y()) * t, z() + (v.z() - z()) * t); }
  void setInterpolate3(const Vector3& a, const Vector3& b, double r) { for (int i = 0; i < 3; i++) m_floats[i] = (1 - r) * a.m_floats[i] + r * b.m_floats[i]; }
  bool operator==(const Vector3& o) const { return x() == o.x() && y() == o.y() && z() == o.z(); }
  bool operator!=(const Vector3& o) const { return !(*this == o); }
  bool isZero() const { return x() == 0 && y() == 0 && z() == 0; }
};
inline Vector3 operator+(const Vector3& a, const Vector3& b) { return Vector3(a.x() + b.x(), a.y() + b.y(), a.z() + b.z()); }
inline Vector3 operator-(const Vector3& a, const Vector3& b) { return Vector3(a.x() - b.x(), a.y() - b.y(), a.z() - b.z()); }
inline Vector3 operator-(const Vector3& a) { return Vector3(-a.x(), -a.y(), -a.z()); }
inline Vector3 operator*(const Vector3& a, const Vector3& b) { return Vector3(a.x() * b.x(), a.y() * b.y(), a.z() * b.z()); }
inline Vector3 operator*(const Vector3& a, const double& s) { return Vector3(a.x() * s, a.y() * s, a.z() * s); }
inline Vector3 operator*(const double& s, const Vector3& a) { return a * s; }
inline Vector3 operator/(const Vector3& a, const double& s) { return a * (1.0 / s); }
inline double tf2Dot(const Vector3& a, const Vector3& b) { return a.dot(b); }

class Quaternion
{
  double f_[4];
public:
  Quaternion() { f_[0] = f_[1] = f_[2] = f_[3] = 0; }
  Quaternion(const double& x, const double& y, const double& z, const double& w) { setValue(x, y, z, w); }
  Quaternion(const Vector3& axis, const double& angle) { setRotation(axis, angle); }
  void setValue(double x, double y, double z, double w) { f_[0] = x; f_[1] = y; f_[2] = z; f_[3] = w; }
  void setRotation(const Vector3& axis, const double& angle)
  {
    const double d = axis.length();
    const double s = std::sin(angle * 0.5) / d;
    setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  void setRPY(const double& roll, const double& pitch, const double& yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  double x() const { return f_[0]; }
  double y() const { return f_[1]; }
  double z() const { return f_[2]; }
  double w() const { return f_[3]; }
  const double& getX() const { return f_[0]; }
  const double& getY() const { return f_[1]; }
  const double& getZ() const { return f_[2]; }
  const double& getW() const { return f_[3]; }
  void setX(double v) { f_[0] = v; }
  void setY(double v) { f_[1] = v; }
  void setZ(double v) { f_[2] = v; }
  void setW(double v) { f_[3] = v; }
  double dot(const Quaternion& q) const { return x() * q.x() + y() * q.y() + z() * q.z() + w() * q.w(); }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion& operator*=(const double& s) { for (auto& v : f_) v *= s; return *this; }
  Quaternion& operator/=(const double& s) { return *this *= 1.0 / s; }
  Quaternion& normalize() { return *this /= length(); }
  Quaternion normalized() const { Quaternion q(*this); q /= q.length(); return q; }
  Quaternion operator*(const double& s) const { return Quaternion(x() * s, y() * s, z() * s, w() * s); }
  Quaternion operator/(const double& s) const { return *this * (1.0 / s); }
  Quaternion operator-() const { return Quaternion(-x(), -y(), -z(), -w()); }
  Quaternion operator+(const Quaternion& q) const { return Quaternion(x() + q.x(), y() + q.y(), z() + q.z(), w() + q.w()); }
  Quaternion operator-(const Quaternion& q) const { return Quaternion(x() - q.x(), y() - q.y(), z() - q.z(), w() - q.w()); }
  Quaternion& operator*=(const Quaternion& q)
  {
    setValue(w() * q.x() + x() * q.w() + y() * q.z() - z() * q.y(), w() * q.y() + y() * q.w() + z() * q.x() - x() * q.z(),
             w() * q.z() + z() * q.w() + x() * q.y() - y() * q.x(), w() * q.w() - x() * q.x() - y() * q.y() - z() * q.z());
    return *this;
  }
  Quaternion inverse() const { return Quaternion(-x(), -y(), -z(), w()); }
  double angle(const Quaternion& q) const { return std::acos(std::min(1.0, std::max(-1.0, dot(q) / std::sqrt(length2() * q.length2())))); }
  double angleShortestPath(const Quaternion& q) const
  {
    const double s = std::sqrt(length2() * q.length2());
    return std::acos(std::min(1.0, std::abs(dot(q)) / s)) * 2.0;
  }
  double getAngle() const { return 2.0 * std::acos(std::min(1.0, std::max(-1.0, w()))); }
  double getAngleShortestPath() const { return dot(*this) < 0 ? 2.0 * std::acos(-w()) : 2.0 * std::acos(w()); }
  Vector3 getAxis() const
  {
    const double s2 = 1.0 - std::pow(w(), 2.0);
    if (s2 < 10.0 * TF2SIMD_EPSILON) return Vector3(1.0, 0.0, 0.0);
    const double s = std::sqrt(s2);
    return Vector3(x() / s, y() / s, z() / s);
  }
  Quaternion slerp(const Quaternion& q, const double& t) const
  {
    double c = dot(q) / std::sqrt(length2() * q.length2());
    const double sg = c < 0 ? -1 : 1;
    c = std::min(1.0, std::abs(c));
    const double theta = std::acos(c);
    if (theta == 0.0) return *this;
    const double d = 1.0 / std::sin(theta), s0 = std::sin((1.0 - t) * theta), s1 = std::sin(t * theta) * sg;
    return Quaternion((x() * s0 + q.x() * s1) * d, (y() * s0 + q.y() * s1) * d, (z() * s0 + q.z() * s1) * d, (w() * s0 + q.w() * s1) * d);
  }
  static const Quaternion& getIdentity() { static const Quaternion q(0, 0, 0, 1); return q; }
};
inline Quaternion operator*(const Quaternion& a, const Quaternion& b) { Quaternion r(a); r *= b; return r; }
inline double dot(const Quaternion& a, const Quaternion& b) { return a.dot(b); }
inline double length(const Quaternion& a) { return a.length(); }
inline double angle(const Quaternion& a, const Quaternion& b) { return a.angle(b); }
inline Quaternion inverse(const Quaternion& q) { return q.inverse(); }
inline Quaternion slerp(const Quaternion& a, const Quaternion& b, const double& t) { return a.slerp(b, t); }

class Matrix3x3
{
  Vector3 m_el[3];
public:
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  Matrix3x3(double xx, double xy, double xz, double yx, double yy, double yz, double zx, double zy, double zz)
  {
    setValue(xx, xy, xz, yx, yy, yz, zx, zy, zz);
  }
  void setValue(double xx, double xy, double xz, double yx, double yy, double yz, double zx, double zy, double zz)
  {
    m_el[0].setValue(xx, xy, xz); m_el[1].setValue(yx, yy, yz); m_el[2].setValue(zx, zy, zz);
  }
  void setIdentity() { setValue(1, 0, 0, 0, 1, 0, 0, 0, 1); }
  static const Matrix3x3& getIdentity() { static const Matrix3x3 m(1, 0, 0, 0, 1, 0, 0, 0, 1); return m; }
  Vector3& operator[](int i) { return m_el[i]; }
  const Vector3& operator[](int i) const { return m_el[i]; }
  const Vector3& getRow(int i) const { return m_el[i]; }
  Vector3 getColumn(int i) const { return Vector3(m_el[0][i], m_el[1][i], m_el[2][i]); }
  void setRotation(const Quaternion& q)
  {
    const double d = q.length2();
    const double s = 2.0 / d;
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    setValue(1.0 - (yy + zz), xy - wz, xz + wy, xy + wz, 1.0 - (xx + zz), yz - wx, xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  void getRotation(Quaternion& q) const
  {
    double t = m_el[0].x() + m_el[1].y() + m_el[2].z(), v[4];
    if (t > 0.0)
    {
      double s = std::sqrt(t + 1.0);
      v[3] = s * 0.5;
      s = 0.5 / s;
      v[0] = (m_el[2].y() - m_el[1].z()) * s; v[1] = (m_el[0].z() - m_el[2].x()) * s; v[2] = (m_el[1].x() - m_el[0].y()) * s;
    }
    else
    {
      const int i = m_el[0].x() < m_el[1].y() ? (m_el[1].y() < m_el[2].z() ? 2 : 1) : (m_el[0].x() < m_el[2].z() ? 2 : 0);
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m_el[i][i] - m_el[j][j] - m_el[k][k] + 1.0);
      v[i] = s * 0.5;
      s = 0.5 / s;
      v[3] = (m_el[k][j] - m_el[j][k]) * s; v[j] = (m_el[j][i] + m_el[i][j]) * s; v[k] = (m_el[k][i] + m_el[i][k]) * s;
    }
    q.setValue(v[0], v[1], v[2], v[3]);
  }
  void setRPY(double roll, double pitch, double yaw) { Quaternion q; q.setRPY(roll, pitch, yaw); setRotation(q); }
  void getEulerYPR(double& yaw, double& pitch, double& roll, unsigned int = 1) const
  {
    if (std::fabs(m_el[2].x()) >= 1)
    {
      yaw = 0;
      const double delta = std::atan2(m_el[2].y(), m_el[2].z());
      if (m_el[2].x() < 0) { pitch = M_PI / 2.0; roll = delta; }
      else { pitch = -M_PI / 2.0; roll = delta; }
      return;
    }
    pitch = -std::asin(m_el[2].x());
    roll = std::atan2(m_el[2].y() / std::cos(pitch), m_el[2].z() / std::cos(pitch));
    yaw = std::atan2(m_el[1].x() / std::cos(pitch), m_el[0].x() / std::cos(pitch));
  }
  void getRPY(double& roll, double& pitch, double& yaw, unsigned int n = 1) const { getEulerYPR(yaw, pitch, roll, n); }
  Matrix3x3 transpose() const
  {
    return Matrix3x3(m_el[0].x(), m_el[1].x(), m_el[2].x(), m_el[0].y(), m_el[1].y(), m_el[2].y(), m_el[0].z(), m_el[1].z(), m_el[2].z());
  }
  Matrix3x3 inverse() const
  {
    const Vector3 co(m_el[1][1] * m_el[2][2] - m_el[1][2] * m_el[2][1], m_el[1][2] * m_el[2][0] - m_el[1][0] * m_el[2][2], m_el[1][0] * m_el[2][1] - m_el[1][1] * m_el[2][0]);
    const double s = 1.0 / m_el[0].dot(co);
    auto c = [&](int r1, int c1, int r2, int c2) { return m_el[r1][c1] * m_el[r2][c2] - m_el[r1][c2] * m_el[r2][c1]; };
    return Matrix3x3(co.x() * s, c(0, 2, 2, 1) * s, c(0, 1, 1, 2) * s, co.y() * s, c(0, 0, 2, 2) * s, c(0, 2, 1, 0) * s, co.z() * s, c(0, 1, 2, 0) * s, c(0, 0, 1, 1) * s);
  }
  double tdotx(const Vector3& v) const { return m_el[0].x() * v.x() + m_el[1].x() * v.y() + m_el[2].x() * v.z(); }
  double tdoty(const Vector3& v) const { return m_el[0].y() * v.x() + m_el[1].y() * v.y() + m_el[2].y() * v.z(); }
  double tdotz(const Vector3& v) const { return m_el[0].z() * v.x() + m_el[1].z() * v.y() + m_el[2].z() * v.z(); }
};
inline Vector3 operator*(const Matrix3x3& m, const Vector3& v) { return Vector3(m[0].dot(v), m[1].dot(v), m[2].dot(v)); }
inline Matrix3x3 operator*(const Matrix3x3& a, const Matrix3x3& b)
{
  return Matrix3x3(b.tdotx(a[0]), b.tdoty(a[0]), b.tdotz(a[0]), b.tdotx(a[1]), b.tdoty(a[1]), b.tdotz(a[1]), b.tdotx(a[2]), b.tdoty(a[2]), b.tdotz(a[2]));
}
inline Vector3 quatRotate(const Quaternion& r, const Vector3& v)
{
  Quaternion q = r * Quaternion(v.x(), v.y(), v.z(), 0);
  q *= r.inverse();
  return Vector3(q.x(), q.y(), q.z());
}

class Transform
{
  Matrix3x3 b_;
  Vector3 o_;
public:
  Transform() {}
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0)) : b_(q), o_(c) {}
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3(0, 0, 0)) : b_(b), o_(c) {}
  void mult(const Transform& a, const Transform& b) { *this = a * b; }
  Vector3 operator()(const Vector3& x) const { return Vector3(b_[0].dot(x) + o_.x(), b_[1].dot(x) + o_.y(), b_[2].dot(x) + o_.z()); }
  Vector3 operator*(const Vector3& x) const { return (*this)(x); }
  Quaternion operator*(const Quaternion& q) const { return getRotation() * q; }
  Transform operator*(const Transform& t) const { return Transform(b_ * t.b_, (*this)(t.o_)); }
  Transform& operator*=(const Transform& t) { o_ = (*this)(t.o_); b_ = b_ * t.b_; return *this; }
  Matrix3x3& getBasis() { return b_; }
  const Matrix3x3& getBasis() const { return b_; }
  Vector3& getOrigin() { return o_; }
  const Vector3& getOrigin() const { return o_; }
  Quaternion getRotation() const { Quaternion q; b_.getRotation(q); return q; }
  void setOrigin(const Vector3& o) { o_ = o; }
  void setBasis(const Matrix3x3& b) { b_ = b; }
  void setRotation(const Quaternion& q) { b_.setRotation(q); }
  void setIdentity() { b_.setIdentity(); o_.setZero(); }
  Transform inverse() const { Matrix3x3 i = b_.transpose(); return Transform(i, i * -o_); }
  Transform inverseTimes(const Transform& t) const { return inverse() * t; }
  static const Transform& getIdentity() { static const Transform t(Matrix3x3::getIdentity()); return t; }
};
}  // namespace tf2
