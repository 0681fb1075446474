// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <neonavigation_metrics_msgs/Metric.h>
#include <std_msgs/Header.h>
namespace neonavigation_metrics_msgs
{
struct Metrics
{
  std_msgs::Header header;
  std::vector<neonavigation_metrics_msgs::Metric> data;
  typedef boost::shared_ptr<Metrics> Ptr;
  typedef boost::shared_ptr<const Metrics> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("data", data); }
  static const char* rosDataType() { return "neonavigation_metrics_msgs/Metrics"; }
};
typedef Metrics::Ptr MetricsPtr; typedef Metrics::ConstPtr MetricsConstPtr;
inline bool operator==(const Metrics& a, const Metrics& b) { return a.header == b.header && a.data == b.data; }
inline bool operator!=(const Metrics& a, const Metrics& b) { return !(a == b); }
}  // namespace
