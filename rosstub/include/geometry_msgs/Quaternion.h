// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace geometry_msgs
{
struct Quaternion
{
  double x{};
  double y{};
  double z{};
  double w{};
  typedef boost::shared_ptr<Quaternion> Ptr;
  typedef boost::shared_ptr<const Quaternion> ConstPtr;
  template <class S> void visit(S& s) { s.f("x", x); s.f("y", y); s.f("z", z); s.f("w", w); }
  static const char* rosDataType() { return "geometry_msgs/Quaternion"; }
};
typedef Quaternion::Ptr QuaternionPtr; typedef Quaternion::ConstPtr QuaternionConstPtr;
inline bool operator==(const Quaternion& a, const Quaternion& b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
inline bool operator!=(const Quaternion& a, const Quaternion& b) { return !(a == b); }
}  // namespace
