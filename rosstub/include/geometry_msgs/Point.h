// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace geometry_msgs
{
struct Point
{
  double x{};
  double y{};
  double z{};
  typedef boost::shared_ptr<Point> Ptr;
  typedef boost::shared_ptr<const Point> ConstPtr;
  template <class S> void visit(S& s) { s.f("x", x); s.f("y", y); s.f("z", z); }
  static const char* rosDataType() { return "geometry_msgs/Point"; }
};
typedef Point::Ptr PointPtr; typedef Point::ConstPtr PointConstPtr;
inline bool operator==(const Point& a, const Point& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
inline bool operator!=(const Point& a, const Point& b) { return !(a == b); }
}  // namespace
