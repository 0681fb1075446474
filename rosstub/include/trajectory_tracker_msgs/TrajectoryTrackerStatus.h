// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
namespace trajectory_tracker_msgs
{
struct TrajectoryTrackerStatus
{
  enum { NO_PATH = 0, FOLLOWING = 1, GOAL = 2, FAR_FROM_PATH = 3 };
  std_msgs::Header header;
  float distance_remains{};
  float angle_remains{};
  uint8_t status{};
  std_msgs::Header path_header;
  typedef boost::shared_ptr<TrajectoryTrackerStatus> Ptr;
  typedef boost::shared_ptr<const TrajectoryTrackerStatus> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("distance_remains", distance_remains); s.f("angle_remains", angle_remains); s.f("status", status); s.f("path_header", path_header); }
  static const char* rosDataType() { return "trajectory_tracker_msgs/TrajectoryTrackerStatus"; }
};
typedef TrajectoryTrackerStatus::Ptr TrajectoryTrackerStatusPtr; typedef TrajectoryTrackerStatus::ConstPtr TrajectoryTrackerStatusConstPtr;
inline bool operator==(const TrajectoryTrackerStatus& a, const TrajectoryTrackerStatus& b) { return a.header == b.header && a.distance_remains == b.distance_remains && a.angle_remains == b.angle_remains && a.status == b.status && a.path_header == b.path_header; }
inline bool operator!=(const TrajectoryTrackerStatus& a, const TrajectoryTrackerStatus& b) { return !(a == b); }
}  // namespace
