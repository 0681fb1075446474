// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace visualization_msgs
{
struct InteractiveMarkerPose
{
  std_msgs::Header header;
  geometry_msgs::Pose pose;
  std::string name;
  typedef boost::shared_ptr<InteractiveMarkerPose> Ptr;
  typedef boost::shared_ptr<const InteractiveMarkerPose> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("pose", pose); s.f("name", name); }
  static const char* rosDataType() { return "visualization_msgs/InteractiveMarkerPose"; }
};
typedef InteractiveMarkerPose::Ptr InteractiveMarkerPosePtr; typedef InteractiveMarkerPose::ConstPtr InteractiveMarkerPoseConstPtr;
inline bool operator==(const InteractiveMarkerPose& a, const InteractiveMarkerPose& b) { return a.header == b.header && a.pose == b.pose && a.name == b.name; }
inline bool operator!=(const InteractiveMarkerPose& a, const InteractiveMarkerPose& b) { return !(a == b); }
}  // namespace
