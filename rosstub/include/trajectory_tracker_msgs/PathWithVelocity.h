// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
#include <trajectory_tracker_msgs/PoseStampedWithVelocity.h>
namespace trajectory_tracker_msgs
{
struct PathWithVelocity
{
  std_msgs::Header header;
  std::vector<trajectory_tracker_msgs::PoseStampedWithVelocity> poses;
  typedef boost::shared_ptr<PathWithVelocity> Ptr;
  typedef boost::shared_ptr<const PathWithVelocity> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("poses", poses); }
  static const char* rosDataType() { return "trajectory_tracker_msgs/PathWithVelocity"; }
};
typedef PathWithVelocity::Ptr PathWithVelocityPtr; typedef PathWithVelocity::ConstPtr PathWithVelocityConstPtr;
inline bool operator==(const PathWithVelocity& a, const PathWithVelocity& b) { return a.header == b.header && a.poses == b.poses; }
inline bool operator!=(const PathWithVelocity& a, const PathWithVelocity& b) { return !(a == b); }
}  // namespace
