// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/PoseWithCovariance.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct PoseWithCovarianceStamped
{
  std_msgs::Header header;
  geometry_msgs::PoseWithCovariance pose;
  typedef boost::shared_ptr<PoseWithCovarianceStamped> Ptr;
  typedef boost::shared_ptr<const PoseWithCovarianceStamped> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("pose", pose); }
  static const char* rosDataType() { return "geometry_msgs/PoseWithCovarianceStamped"; }
};
typedef PoseWithCovarianceStamped::Ptr PoseWithCovarianceStampedPtr; typedef PoseWithCovarianceStamped::ConstPtr PoseWithCovarianceStampedConstPtr;
inline bool operator==(const PoseWithCovarianceStamped& a, const PoseWithCovarianceStamped& b) { return a.header == b.header && a.pose == b.pose; }
inline bool operator!=(const PoseWithCovarianceStamped& a, const PoseWithCovarianceStamped& b) { return !(a == b); }
}  // namespace
