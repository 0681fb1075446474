// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Twist.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct TwistStamped
{
  std_msgs::Header header;
  geometry_msgs::Twist twist;
  typedef boost::shared_ptr<TwistStamped> Ptr;
  typedef boost::shared_ptr<const TwistStamped> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("twist", twist); }
  static const char* rosDataType() { return "geometry_msgs/TwistStamped"; }
};
typedef TwistStamped::Ptr TwistStampedPtr; typedef TwistStamped::ConstPtr TwistStampedConstPtr;
inline bool operator==(const TwistStamped& a, const TwistStamped& b) { return a.header == b.header && a.twist == b.twist; }
inline bool operator!=(const TwistStamped& a, const TwistStamped& b) { return !(a == b); }
}  // namespace
