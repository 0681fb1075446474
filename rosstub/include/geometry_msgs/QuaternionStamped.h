// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Quaternion.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct QuaternionStamped
{
  std_msgs::Header header;
  geometry_msgs::Quaternion quaternion;
  typedef boost::shared_ptr<QuaternionStamped> Ptr;
  typedef boost::shared_ptr<const QuaternionStamped> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("quaternion", quaternion); }
  static const char* rosDataType() { return "geometry_msgs/QuaternionStamped"; }
};
typedef QuaternionStamped::Ptr QuaternionStampedPtr; typedef QuaternionStamped::ConstPtr QuaternionStampedConstPtr;
inline bool operator==(const QuaternionStamped& a, const QuaternionStamped& b) { return a.header == b.header && a.quaternion == b.quaternion; }
inline bool operator!=(const QuaternionStamped& a, const QuaternionStamped& b) { return !(a == b); }
}  // namespace
