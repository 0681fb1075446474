// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Point.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct PointStamped
{
  std_msgs::Header header;
  geometry_msgs::Point point;
  typedef boost::shared_ptr<PointStamped> Ptr;
  typedef boost::shared_ptr<const PointStamped> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("point", point); }
  static const char* rosDataType() { return "geometry_msgs/PointStamped"; }
};
typedef PointStamped::Ptr PointStampedPtr; typedef PointStamped::ConstPtr PointStampedConstPtr;
inline bool operator==(const PointStamped& a, const PointStamped& b) { return a.header == b.header && a.point == b.point; }
inline bool operator!=(const PointStamped& a, const PointStamped& b) { return !(a == b); }
}  // namespace
