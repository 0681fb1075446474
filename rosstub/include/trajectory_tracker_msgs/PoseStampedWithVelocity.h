// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/Header.h>
namespace trajectory_tracker_msgs
{
struct PoseStampedWithVelocity
{
  std_msgs::Header header;
  geometry_msgs::Pose pose;
  geometry_msgs::Vector3 linear_velocity;
  typedef boost::shared_ptr<PoseStampedWithVelocity> Ptr;
  typedef boost::shared_ptr<const PoseStampedWithVelocity> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("pose", pose); s.f("linear_velocity", linear_velocity); }
  static const char* rosDataType() { return "trajectory_tracker_msgs/PoseStampedWithVelocity"; }
};
typedef PoseStampedWithVelocity::Ptr PoseStampedWithVelocityPtr; typedef PoseStampedWithVelocity::ConstPtr PoseStampedWithVelocityConstPtr;
inline bool operator==(const PoseStampedWithVelocity& a, const PoseStampedWithVelocity& b) { return a.header == b.header && a.pose == b.pose && a.linear_velocity == b.linear_velocity; }
inline bool operator!=(const PoseStampedWithVelocity& a, const PoseStampedWithVelocity& b) { return !(a == b); }
}  // namespace
