// Stand-in for neonavigation_metrics_msgs/helper.h.
#pragma once
#include <string>
#include <vector>
#include <neonavigation_metrics_msgs/Metric.h>
namespace neonavigation_metrics_msgs
{
inline Metric metric(const std::string& name, const double value, const std::string& unit, const std::vector<std::string>& tags = std::vector<std::string>())
{
  Metric m;
  m.name = name; m.value = value; m.unit = unit; m.tags = tags;
  return m;
}
}  // namespace neonavigation_metrics_msgs
