// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace geometry_msgs
{
struct Vector3
{
  double x{};
  double y{};
  double z{};
  typedef boost::shared_ptr<Vector3> Ptr;
  typedef boost::shared_ptr<const Vector3> ConstPtr;
  template <class S> void visit(S& s) { s.f("x", x); s.f("y", y); s.f("z", z); }
  static const char* rosDataType() { return "geometry_msgs/Vector3"; }
};
typedef Vector3::Ptr Vector3Ptr; typedef Vector3::ConstPtr Vector3ConstPtr;
inline bool operator==(const Vector3& a, const Vector3& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
inline bool operator!=(const Vector3& a, const Vector3& b) { return !(a == b); }
}  // namespace
