#pragma once
#include <tf2/convert.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <tf2_ros/buffer.h>
namespace tf2
{
inline geometry_msgs::Quaternion toMsg(const Quaternion& in) { geometry_msgs::Quaternion o; o.x = in.x(); o.y = in.y(); o.z = in.z(); o.w = in.w(); return o; }
inline void fromMsg(const geometry_msgs::Quaternion& in, Quaternion& out) { out = Quaternion(in.x, in.y, in.z, in.w); }
inline geometry_msgs::Vector3 toMsg(const Vector3& in) { geometry_msgs::Vector3 o; o.x = in.x(); o.y = in.y(); o.z = in.z(); return o; }
inline void fromMsg(const geometry_msgs::Vector3& in, Vector3& out) { out = Vector3(in.x, in.y, in.z); }
inline geometry_msgs::Point& toMsg(const Vector3& in, geometry_msgs::Point& o) { o.x = in.x(); o.y = in.y(); o.z = in.z(); return o; }
inline void fromMsg(const geometry_msgs::Point& in, Vector3& out) { out = Vector3(in.x, in.y, in.z); }
inline geometry_msgs::Transform toMsg(const Transform& in)
{
  geometry_msgs::Transform o;
  o.translation = toMsg(in.getOrigin());
  o.rotation = toMsg(in.getRotation());
  return o;
}
inline void fromMsg(const geometry_msgs::Transform& in, Transform& out)
{
  out.setOrigin(Vector3(in.translation.x, in.translation.y, in.translation.z));
  Quaternion q;
  fromMsg(in.rotation, q);
  out.setRotation(q);
}
inline geometry_msgs::Pose& toMsg(const Transform& in, geometry_msgs::Pose& out) { toMsg(in.getOrigin(), out.position); out.orientation = toMsg(in.getRotation()); return out; }
inline void fromMsg(const geometry_msgs::Pose& in, Transform& out)
{
  out.setOrigin(Vector3(in.position.x, in.position.y, in.position.z));
  out.setRotation(Quaternion(in.orientation.x, in.orientation.y, in.orientation.z, in.orientation.w));
}
inline geometry_msgs::PoseStamped toMsg(const geometry_msgs::PoseStamped& in) { return in; }
inline void fromMsg(const geometry_msgs::PoseStamped& m, Stamped<Transform>& out)
{
  out.stamp_ = m.header.stamp; out.frame_id_ = m.header.frame_id;
  Transform t; fromMsg(m.pose, t); out.setData(t);
}
inline void fromMsg(const geometry_msgs::TransformStamped& m, Stamped<Transform>& out)
{
  out.stamp_ = m.header.stamp; out.frame_id_ = m.header.frame_id;
  Transform t; fromMsg(m.transform, t); out.setData(t);
}
inline geometry_msgs::TransformStamped toMsg(const Stamped<Transform>& in)
{
  geometry_msgs::TransformStamped o;
  o.header.stamp = in.stamp_; o.header.frame_id = in.frame_id_;
  o.transform.translation = toMsg(in.getOrigin()); o.transform.rotation = toMsg(in.getRotation());
  return o;
}
inline geometry_msgs::PoseStamped toMsg(const Stamped<Transform>& in, geometry_msgs::PoseStamped& o)
{
  o.header.stamp = in.stamp_; o.header.frame_id = in.frame_id_;
  toMsg(static_cast<const Transform&>(in), o.pose);
  return o;
}
inline void fromMsg(const geometry_msgs::QuaternionStamped& m, Stamped<Quaternion>& out)
{
  out.stamp_ = m.header.stamp; out.frame_id_ = m.header.frame_id;
  Quaternion q; fromMsg(m.quaternion, q); out.setData(q);
}
inline geometry_msgs::QuaternionStamped toMsg(const Stamped<Quaternion>& in)
{
  geometry_msgs::QuaternionStamped o;
  o.header.stamp = in.stamp_; o.header.frame_id = in.frame_id_; o.quaternion = toMsg(static_cast<const Quaternion&>(in));
  return o;
}
inline void fromMsg(const geometry_msgs::Vector3Stamped& m, Stamped<Vector3>& out) { out.stamp_ = m.header.stamp; out.frame_id_ = m.header.frame_id; out.setData(Vector3(m.vector.x, m.vector.y, m.vector.z)); }
inline void fromMsg(const geometry_msgs::PointStamped& m, Stamped<Vector3>& out) { out.stamp_ = m.header.stamp; out.frame_id_ = m.header.frame_id; out.setData(Vector3(m.point.x, m.point.y, m.point.z)); }
namespace simtf { inline Transform T(const geometry_msgs::TransformStamped& t) { Transform r; fromMsg(t.transform, r); return r; } }
inline void doTransform(const geometry_msgs::Point& in, geometry_msgs::Point& out, const geometry_msgs::TransformStamped& t) { const Vector3 v = simtf::T(t) * Vector3(in.x, in.y, in.z); toMsg(v, out); }
inline void doTransform(const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.point, out.point, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::Quaternion& in, geometry_msgs::Quaternion& out, const geometry_msgs::TransformStamped& t)
{
  const Quaternion q = Quaternion(t.transform.rotation.x, t.transform.rotation.y, t.transform.rotation.z, t.transform.rotation.w) * Quaternion(in.x, in.y, in.z, in.w);
  out = toMsg(q);
}
inline void doTransform(const geometry_msgs::QuaternionStamped& in, geometry_msgs::QuaternionStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.quaternion, out.quaternion, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::Pose& in, geometry_msgs::Pose& out, const geometry_msgs::TransformStamped& t)
{
  Transform p; fromMsg(in, p);
  const Transform v = simtf::T(t) * p;
  toMsg(v, out);
}
inline void doTransform(const geometry_msgs::PoseStamped& in, geometry_msgs::PoseStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.pose, out.pose, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::PoseWithCovarianceStamped& in, geometry_msgs::PoseWithCovarianceStamped& out, const geometry_msgs::TransformStamped& t)
{
  out.pose.covariance = in.pose.covariance;
  doTransform(in.pose.pose, out.pose.pose, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::Vector3& in, geometry_msgs::Vector3& out, const geometry_msgs::TransformStamped& t)
{
  const Vector3 v = simtf::T(t).getBasis() * Vector3(in.x, in.y, in.z);
  out = toMsg(v);
}
inline void doTransform(const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.vector, out.vector, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::TransformStamped& in, geometry_msgs::TransformStamped& out, const geometry_msgs::TransformStamped& t)
{
  Transform p; fromMsg(in.transform, p);
  out.transform = toMsg(simtf::T(t) * p);
  out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline Quaternion toQuaternion(const Quaternion& q) { return q; }
inline Quaternion toQuaternion(const geometry_msgs::Quaternion& q) { return Quaternion(q.x, q.y, q.z, q.w); }
inline Quaternion toQuaternion(const geometry_msgs::QuaternionStamped& q) { return toQuaternion(q.quaternion); }
template <class T> Quaternion toQuaternion(const Stamped<T>& t) { return toQuaternion(static_cast<const T&>(t)); }
// same formula as tf2::impl::getYaw
template <class A> double getYaw(const A& a)
{
  const Quaternion q = toQuaternion(a);
  const double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) return -2 * std::atan2(q.y(), q.x());
  if (sarg >= 0.99999) return 2 * std::atan2(q.y(), q.x());
  return std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
}
template <class A> void getEulerYPR(const A& a, double& yaw, double& pitch, double& roll) { Matrix3x3(toQuaternion(a)).getEulerYPR(yaw, pitch, roll); }
template <class A, class B> void convert(const A& a, B& b) { fromMsg(a, b); }
}  // namespace tf2
// members of the buffer which need the conversions above
namespace tf2_ros
{
template <class T> T& Buffer::transform(const T& in, T& out, const std::string& frame, ros::Duration timeout) const
{
  tf2::doTransform(in, out, lookupTransform(frame, tf2::getFrameId(in), tf2::getTimestamp(in), timeout));
  return out;
}
}
