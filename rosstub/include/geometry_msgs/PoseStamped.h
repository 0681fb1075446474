// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct PoseStamped
{
  std_msgs::Header header;
  geometry_msgs::Pose pose;
  typedef boost::shared_ptr<PoseStamped> Ptr;
  typedef boost::shared_ptr<const PoseStamped> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("pose", pose); }
  static const char* rosDataType() { return "geometry_msgs/PoseStamped"; }
};
typedef PoseStamped::Ptr PoseStampedPtr; typedef PoseStamped::ConstPtr PoseStampedConstPtr;
inline bool operator==(const PoseStamped& a, const PoseStamped& b) { return a.header == b.header && a.pose == b.pose; }
inline bool operator!=(const PoseStamped& a, const PoseStamped& b) { return !(a == b); }
}  // namespace
