// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Point32.h>
namespace geometry_msgs
{
struct Polygon
{
  std::vector<geometry_msgs::Point32> points;
  typedef boost::shared_ptr<Polygon> Ptr;
  typedef boost::shared_ptr<const Polygon> ConstPtr;
  template <class S> void visit(S& s) { s.f("points", points); }
  static const char* rosDataType() { return "geometry_msgs/Polygon"; }
};
typedef Polygon::Ptr PolygonPtr; typedef Polygon::ConstPtr PolygonConstPtr;
inline bool operator==(const Polygon& a, const Polygon& b) { return a.points == b.points; }
inline bool operator!=(const Polygon& a, const Polygon& b) { return !(a == b); }
}  // namespace
