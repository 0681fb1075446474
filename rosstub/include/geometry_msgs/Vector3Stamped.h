// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct Vector3Stamped
{
  std_msgs::Header header;
  geometry_msgs::Vector3 vector;
  typedef boost::shared_ptr<Vector3Stamped> Ptr;
  typedef boost::shared_ptr<const Vector3Stamped> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("vector", vector); }
  static const char* rosDataType() { return "geometry_msgs/Vector3Stamped"; }
};
typedef Vector3Stamped::Ptr Vector3StampedPtr; typedef Vector3Stamped::ConstPtr Vector3StampedConstPtr;
inline bool operator==(const Vector3Stamped& a, const Vector3Stamped& b) { return a.header == b.header && a.vector == b.vector; }
inline bool operator!=(const Vector3Stamped& a, const Vector3Stamped& b) { return !(a == b); }
}  // namespace
