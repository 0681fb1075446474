// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/PoseWithCovariance.h>
#include <geometry_msgs/TwistWithCovariance.h>
#include <std_msgs/Header.h>
namespace nav_msgs
{
struct Odometry
{
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::PoseWithCovariance pose;
  geometry_msgs::TwistWithCovariance twist;
  typedef boost::shared_ptr<Odometry> Ptr;
  typedef boost::shared_ptr<const Odometry> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("child_frame_id", child_frame_id); s.f("pose", pose); s.f("twist", twist); }
  static const char* rosDataType() { return "nav_msgs/Odometry"; }
};
typedef Odometry::Ptr OdometryPtr; typedef Odometry::ConstPtr OdometryConstPtr;
inline bool operator==(const Odometry& a, const Odometry& b) { return a.header == b.header && a.child_frame_id == b.child_frame_id && a.pose == b.pose && a.twist == b.twist; }
inline bool operator!=(const Odometry& a, const Odometry& b) { return !(a == b); }
}  // namespace
