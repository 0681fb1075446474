// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Polygon.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct PolygonStamped
{
  std_msgs::Header header;
  geometry_msgs::Polygon polygon;
  typedef boost::shared_ptr<PolygonStamped> Ptr;
  typedef boost::shared_ptr<const PolygonStamped> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("polygon", polygon); }
  static const char* rosDataType() { return "geometry_msgs/PolygonStamped"; }
};
typedef PolygonStamped::Ptr PolygonStampedPtr; typedef PolygonStamped::ConstPtr PolygonStampedConstPtr;
inline bool operator==(const PolygonStamped& a, const PolygonStamped& b) { return a.header == b.header && a.polygon == b.polygon; }
inline bool operator!=(const PolygonStamped& a, const PolygonStamped& b) { return !(a == b); }
}  // namespace
