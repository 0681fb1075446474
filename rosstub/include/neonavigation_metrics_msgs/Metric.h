// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace neonavigation_metrics_msgs
{
struct Metric
{
  std::string name;
  double value{};
  std::string unit;
  std::vector<std::string> tags;
  typedef boost::shared_ptr<Metric> Ptr;
  typedef boost::shared_ptr<const Metric> ConstPtr;
  template <class S> void visit(S& s) { s.f("name", name); s.f("value", value); s.f("unit", unit); s.f("tags", tags); }
  static const char* rosDataType() { return "neonavigation_metrics_msgs/Metric"; }
};
typedef Metric::Ptr MetricPtr; typedef Metric::ConstPtr MetricConstPtr;
inline bool operator==(const Metric& a, const Metric& b) { return a.name == b.name && a.value == b.value && a.unit == b.unit && a.tags == b.tags; }
inline bool operator!=(const Metric& a, const Metric& b) { return !(a == b); }
}  // namespace
