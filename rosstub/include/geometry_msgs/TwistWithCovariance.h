// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Twist.h>
namespace geometry_msgs
{
struct TwistWithCovariance
{
  geometry_msgs::Twist twist;
  boost::array<double, 36> covariance{};
  typedef boost::shared_ptr<TwistWithCovariance> Ptr;
  typedef boost::shared_ptr<const TwistWithCovariance> ConstPtr;
  template <class S> void visit(S& s) { s.f("twist", twist); s.f("covariance", covariance); }
  static const char* rosDataType() { return "geometry_msgs/TwistWithCovariance"; }
};
typedef TwistWithCovariance::Ptr TwistWithCovariancePtr; typedef TwistWithCovariance::ConstPtr TwistWithCovarianceConstPtr;
inline bool operator==(const TwistWithCovariance& a, const TwistWithCovariance& b) { return a.twist == b.twist && a.covariance == b.covariance; }
inline bool operator!=(const TwistWithCovariance& a, const TwistWithCovariance& b) { return !(a == b); }
}  // namespace
