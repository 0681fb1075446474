// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <actionlib_msgs/GoalID.h>
namespace actionlib_msgs
{
struct GoalStatus
{
  enum { PENDING = 0, ACTIVE = 1, PREEMPTED = 2, SUCCEEDED = 3, ABORTED = 4, REJECTED = 5, PREEMPTING = 6, RECALLING = 7, RECALLED = 8, LOST = 9 };
  actionlib_msgs::GoalID goal_id;
  uint8_t status{};
  std::string text;
  typedef boost::shared_ptr<GoalStatus> Ptr;
  typedef boost::shared_ptr<const GoalStatus> ConstPtr;
  template <class S> void visit(S& s) { s.f("goal_id", goal_id); s.f("status", status); s.f("text", text); }
  static const char* rosDataType() { return "actionlib_msgs/GoalStatus"; }
};
typedef GoalStatus::Ptr GoalStatusPtr; typedef GoalStatus::ConstPtr GoalStatusConstPtr;
inline bool operator==(const GoalStatus& a, const GoalStatus& b) { return a.goal_id == b.goal_id && a.status == b.status && a.text == b.text; }
inline bool operator!=(const GoalStatus& a, const GoalStatus& b) { return !(a == b); }
}  // namespace
