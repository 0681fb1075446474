// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/PoseStamped.h>
namespace move_base_msgs
{
struct MoveBaseGoal
{
  geometry_msgs::PoseStamped target_pose;
  typedef boost::shared_ptr<MoveBaseGoal> Ptr;
  typedef boost::shared_ptr<const MoveBaseGoal> ConstPtr;
  template <class S> void visit(S& s) { s.f("target_pose", target_pose); }
  static const char* rosDataType() { return "move_base_msgs/MoveBaseGoal"; }
};
typedef MoveBaseGoal::Ptr MoveBaseGoalPtr; typedef MoveBaseGoal::ConstPtr MoveBaseGoalConstPtr;
inline bool operator==(const MoveBaseGoal& a, const MoveBaseGoal& b) { return a.target_pose == b.target_pose; }
inline bool operator!=(const MoveBaseGoal& a, const MoveBaseGoal& b) { return !(a == b); }
}  // namespace
