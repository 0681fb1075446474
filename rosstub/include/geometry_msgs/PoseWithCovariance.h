// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs
{
struct PoseWithCovariance
{
  geometry_msgs::Pose pose;
  boost::array<double, 36> covariance{};
  typedef boost::shared_ptr<PoseWithCovariance> Ptr;
  typedef boost::shared_ptr<const PoseWithCovariance> ConstPtr;
  template <class S> void visit(S& s) { s.f("pose", pose); s.f("covariance", covariance); }
  static const char* rosDataType() { return "geometry_msgs/PoseWithCovariance"; }
};
typedef PoseWithCovariance::Ptr PoseWithCovariancePtr; typedef PoseWithCovariance::ConstPtr PoseWithCovarianceConstPtr;
inline bool operator==(const PoseWithCovariance& a, const PoseWithCovariance& b) { return a.pose == b.pose && a.covariance == b.covariance; }
inline bool operator!=(const PoseWithCovariance& a, const PoseWithCovariance& b) { return !(a == b); }
}  // namespace
