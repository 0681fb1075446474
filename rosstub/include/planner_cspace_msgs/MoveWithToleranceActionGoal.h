// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <actionlib_msgs/GoalID.h>
#include <planner_cspace_msgs/MoveWithToleranceGoal.h>
#include <std_msgs/Header.h>
namespace planner_cspace_msgs
{
struct MoveWithToleranceActionGoal
{
  std_msgs::Header header;
  actionlib_msgs::GoalID goal_id;
  planner_cspace_msgs::MoveWithToleranceGoal goal;
  typedef boost::shared_ptr<MoveWithToleranceActionGoal> Ptr;
  typedef boost::shared_ptr<const MoveWithToleranceActionGoal> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("goal_id", goal_id); s.f("goal", goal); }
  static const char* rosDataType() { return "planner_cspace_msgs/MoveWithToleranceActionGoal"; }
};
typedef MoveWithToleranceActionGoal::Ptr MoveWithToleranceActionGoalPtr; typedef MoveWithToleranceActionGoal::ConstPtr MoveWithToleranceActionGoalConstPtr;
inline bool operator==(const MoveWithToleranceActionGoal& a, const MoveWithToleranceActionGoal& b) { return a.header == b.header && a.goal_id == b.goal_id && a.goal == b.goal; }
inline bool operator!=(const MoveWithToleranceActionGoal& a, const MoveWithToleranceActionGoal& b) { return !(a == b); }
}  // namespace
