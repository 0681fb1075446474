#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  void sendTransform(const geometry_msgs::TransformStamped& m) { if (sim::tf().sink) sim::tf().sink(m, false); sim::setTf(m, false); }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) { for (auto& m : v) sendTransform(m); }
};
class StaticTransformBroadcaster
{
public:
  void sendTransform(const geometry_msgs::TransformStamped& m) { if (sim::tf().sink) sim::tf().sink(m, true); sim::setTf(m, true); }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) { for (auto& m : v) sendTransform(m); }
};
}
