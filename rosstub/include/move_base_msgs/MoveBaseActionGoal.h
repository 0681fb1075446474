// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <actionlib_msgs/GoalID.h>
#include <move_base_msgs/MoveBaseGoal.h>
#include <std_msgs/Header.h>
namespace move_base_msgs
{
struct MoveBaseActionGoal
{
  std_msgs::Header header;
  actionlib_msgs::GoalID goal_id;
  move_base_msgs::MoveBaseGoal goal;
  typedef boost::shared_ptr<MoveBaseActionGoal> Ptr;
  typedef boost::shared_ptr<const MoveBaseActionGoal> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("goal_id", goal_id); s.f("goal", goal); }
  static const char* rosDataType() { return "move_base_msgs/MoveBaseActionGoal"; }
};
typedef MoveBaseActionGoal::Ptr MoveBaseActionGoalPtr; typedef MoveBaseActionGoal::ConstPtr MoveBaseActionGoalConstPtr;
inline bool operator==(const MoveBaseActionGoal& a, const MoveBaseActionGoal& b) { return a.header == b.header && a.goal_id == b.goal_id && a.goal == b.goal; }
inline bool operator!=(const MoveBaseActionGoal& a, const MoveBaseActionGoal& b) { return !(a == b); }
}  // namespace
