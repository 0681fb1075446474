// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/PoseStamped.h>
#include <std_msgs/Header.h>
namespace nav_msgs
{
struct Path
{
  std_msgs::Header header;
  std::vector<geometry_msgs::PoseStamped> poses;
  typedef boost::shared_ptr<Path> Ptr;
  typedef boost::shared_ptr<const Path> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("poses", poses); }
  static const char* rosDataType() { return "nav_msgs/Path"; }
};
typedef Path::Ptr PathPtr; typedef Path::ConstPtr PathConstPtr;
inline bool operator==(const Path& a, const Path& b) { return a.header == b.header && a.poses == b.poses; }
inline bool operator!=(const Path& a, const Path& b) { return !(a == b); }
}  // namespace
