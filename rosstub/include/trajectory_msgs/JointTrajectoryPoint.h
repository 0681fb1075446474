// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace trajectory_msgs
{
struct JointTrajectoryPoint
{
  std::vector<double> positions;
  std::vector<double> velocities;
  std::vector<double> accelerations;
  std::vector<double> effort;
  ros::Duration time_from_start;
  typedef boost::shared_ptr<JointTrajectoryPoint> Ptr;
  typedef boost::shared_ptr<const JointTrajectoryPoint> ConstPtr;
  template <class S> void visit(S& s) { s.f("positions", positions); s.f("velocities", velocities); s.f("accelerations", accelerations); s.f("effort", effort); s.f("time_from_start", time_from_start); }
  static const char* rosDataType() { return "trajectory_msgs/JointTrajectoryPoint"; }
};
typedef JointTrajectoryPoint::Ptr JointTrajectoryPointPtr; typedef JointTrajectoryPoint::ConstPtr JointTrajectoryPointConstPtr;
inline bool operator==(const JointTrajectoryPoint& a, const JointTrajectoryPoint& b) { return a.positions == b.positions && a.velocities == b.velocities && a.accelerations == b.accelerations && a.effort == b.effort && a.time_from_start == b.time_from_start; }
inline bool operator!=(const JointTrajectoryPoint& a, const JointTrajectoryPoint& b) { return !(a == b); }
}  // namespace
