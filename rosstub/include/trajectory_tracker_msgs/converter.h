// Stand-in for trajectory_tracker_msgs/converter.h.
#pragma once
#include <nav_msgs/Path.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
namespace trajectory_tracker_msgs
{
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& src, const double vel)
{
  PathWithVelocity d;
  d.header = src.header;
  for (const auto& p : src.poses)
  {
    PoseStampedWithVelocity q;
    q.header = p.header; q.pose = p.pose; q.linear_velocity.x = vel;
    d.poses.push_back(q);
  }
  return d;
}
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& src, const geometry_msgs::Vector3& vel)
{
  PathWithVelocity d;
  d.header = src.header;
  for (const auto& p : src.poses)
  {
    PoseStampedWithVelocity q;
    q.header = p.header; q.pose = p.pose; q.linear_velocity = vel;
    d.poses.push_back(q);
  }
  return d;
}
inline nav_msgs::Path toPath(const PathWithVelocity& src)
{
  nav_msgs::Path d;
  d.header = src.header;
  for (const auto& p : src.poses)
  {
    geometry_msgs::PoseStamped q;
    q.header = p.header; q.pose = p.pose;
    d.poses.push_back(q);
  }
  return d;
}
}  // namespace trajectory_tracker_msgs
