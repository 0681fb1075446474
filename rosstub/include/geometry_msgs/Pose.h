// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs
{
struct Pose
{
  geometry_msgs::Point position;
  geometry_msgs::Quaternion orientation;
  typedef boost::shared_ptr<Pose> Ptr;
  typedef boost::shared_ptr<const Pose> ConstPtr;
  template <class S> void visit(S& s) { s.f("position", position); s.f("orientation", orientation); }
  static const char* rosDataType() { return "geometry_msgs/Pose"; }
};
typedef Pose::Ptr PosePtr; typedef Pose::ConstPtr PoseConstPtr;
inline bool operator==(const Pose& a, const Pose& b) { return a.position == b.position && a.orientation == b.orientation; }
inline bool operator!=(const Pose& a, const Pose& b) { return !(a == b); }
}  // namespace
