// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
#include <trajectory_msgs/JointTrajectoryPoint.h>
namespace trajectory_msgs
{
struct JointTrajectory
{
  std_msgs::Header header;
  std::vector<std::string> joint_names;
  std::vector<trajectory_msgs::JointTrajectoryPoint> points;
  typedef boost::shared_ptr<JointTrajectory> Ptr;
  typedef boost::shared_ptr<const JointTrajectory> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("joint_names", joint_names); s.f("points", points); }
  static const char* rosDataType() { return "trajectory_msgs/JointTrajectory"; }
};
typedef JointTrajectory::Ptr JointTrajectoryPtr; typedef JointTrajectory::ConstPtr JointTrajectoryConstPtr;
inline bool operator==(const JointTrajectory& a, const JointTrajectory& b) { return a.header == b.header && a.joint_names == b.joint_names && a.points == b.points; }
inline bool operator!=(const JointTrajectory& a, const JointTrajectory& b) { return !(a == b); }
}  // namespace
