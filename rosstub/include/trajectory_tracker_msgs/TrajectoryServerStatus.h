// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
namespace trajectory_tracker_msgs
{
struct TrajectoryServerStatus
{
  std_msgs::Header header;
  std::string filename;
  int32_t id{};
  typedef boost::shared_ptr<TrajectoryServerStatus> Ptr;
  typedef boost::shared_ptr<const TrajectoryServerStatus> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("filename", filename); s.f("id", id); }
  static const char* rosDataType() { return "trajectory_tracker_msgs/TrajectoryServerStatus"; }
};
typedef TrajectoryServerStatus::Ptr TrajectoryServerStatusPtr; typedef TrajectoryServerStatus::ConstPtr TrajectoryServerStatusConstPtr;
inline bool operator==(const TrajectoryServerStatus& a, const TrajectoryServerStatus& b) { return a.header == b.header && a.filename == b.filename && a.id == b.id; }
inline bool operator!=(const TrajectoryServerStatus& a, const TrajectoryServerStatus& b) { return !(a == b); }
}  // namespace
