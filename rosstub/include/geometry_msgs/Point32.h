// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace geometry_msgs
{
struct Point32
{
  float x{};
  float y{};
  float z{};
  typedef boost::shared_ptr<Point32> Ptr;
  typedef boost::shared_ptr<const Point32> ConstPtr;
  template <class S> void visit(S& s) { s.f("x", x); s.f("y", y); s.f("z", z); }
  static const char* rosDataType() { return "geometry_msgs/Point32"; }
};
typedef Point32::Ptr Point32Ptr; typedef Point32::ConstPtr Point32ConstPtr;
inline bool operator==(const Point32& a, const Point32& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
inline bool operator!=(const Point32& a, const Point32& b) { return !(a == b); }
}  // namespace
