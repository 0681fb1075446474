// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct PoseArray
{
  std_msgs::Header header;
  std::vector<geometry_msgs::Pose> poses;
  typedef boost::shared_ptr<PoseArray> Ptr;
  typedef boost::shared_ptr<const PoseArray> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("poses", poses); }
  static const char* rosDataType() { return "geometry_msgs/PoseArray"; }
};
typedef PoseArray::Ptr PoseArrayPtr; typedef PoseArray::ConstPtr PoseArrayConstPtr;
inline bool operator==(const PoseArray& a, const PoseArray& b) { return a.header == b.header && a.poses == b.poses; }
inline bool operator!=(const PoseArray& a, const PoseArray& b) { return !(a == b); }
}  // namespace
