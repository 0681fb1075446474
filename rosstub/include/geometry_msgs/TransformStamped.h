// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Transform.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct TransformStamped
{
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::Transform transform;
  typedef boost::shared_ptr<TransformStamped> Ptr;
  typedef boost::shared_ptr<const TransformStamped> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("child_frame_id", child_frame_id); s.f("transform", transform); }
  static const char* rosDataType() { return "geometry_msgs/TransformStamped"; }
};
typedef TransformStamped::Ptr TransformStampedPtr; typedef TransformStamped::ConstPtr TransformStampedConstPtr;
inline bool operator==(const TransformStamped& a, const TransformStamped& b) { return a.header == b.header && a.child_frame_id == b.child_frame_id && a.transform == b.transform; }
inline bool operator!=(const TransformStamped& a, const TransformStamped& b) { return !(a == b); }
}  // namespace
