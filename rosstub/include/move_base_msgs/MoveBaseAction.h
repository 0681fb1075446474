// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <move_base_msgs/MoveBaseActionFeedback.h>
#include <move_base_msgs/MoveBaseActionGoal.h>
#include <move_base_msgs/MoveBaseActionResult.h>
namespace move_base_msgs
{
struct MoveBaseAction
{
  move_base_msgs::MoveBaseActionGoal action_goal;
  move_base_msgs::MoveBaseActionResult action_result;
  move_base_msgs::MoveBaseActionFeedback action_feedback;
  typedef boost::shared_ptr<MoveBaseAction> Ptr;
  typedef boost::shared_ptr<const MoveBaseAction> ConstPtr;
  template <class S> void visit(S& s) { s.f("action_goal", action_goal); s.f("action_result", action_result); s.f("action_feedback", action_feedback); }
  static const char* rosDataType() { return "move_base_msgs/MoveBaseAction"; }
  typedef MoveBaseGoal Goal_; typedef MoveBaseResult Result_; typedef MoveBaseFeedback Feedback_;
};
typedef MoveBaseAction::Ptr MoveBaseActionPtr; typedef MoveBaseAction::ConstPtr MoveBaseActionConstPtr;
inline bool operator==(const MoveBaseAction& a, const MoveBaseAction& b) { return a.action_goal == b.action_goal && a.action_result == b.action_result && a.action_feedback == b.action_feedback; }
inline bool operator!=(const MoveBaseAction& a, const MoveBaseAction& b) { return !(a == b); }
}  // namespace
