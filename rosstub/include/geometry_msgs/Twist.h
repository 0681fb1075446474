// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs
{
struct Twist
{
  geometry_msgs::Vector3 linear;
  geometry_msgs::Vector3 angular;
  typedef boost::shared_ptr<Twist> Ptr;
  typedef boost::shared_ptr<const Twist> ConstPtr;
  template <class S> void visit(S& s) { s.f("linear", linear); s.f("angular", angular); }
  static const char* rosDataType() { return "geometry_msgs/Twist"; }
};
typedef Twist::Ptr TwistPtr; typedef Twist::ConstPtr TwistConstPtr;
inline bool operator==(const Twist& a, const Twist& b) { return a.linear == b.linear && a.angular == b.angular; }
inline bool operator!=(const Twist& a, const Twist& b) { return !(a == b); }
}  // namespace
