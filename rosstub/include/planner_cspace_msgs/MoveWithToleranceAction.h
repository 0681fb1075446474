// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <planner_cspace_msgs/MoveWithToleranceActionFeedback.h>
#include <planner_cspace_msgs/MoveWithToleranceActionGoal.h>
#include <planner_cspace_msgs/MoveWithToleranceActionResult.h>
namespace planner_cspace_msgs
{
struct MoveWithToleranceAction
{
  planner_cspace_msgs::MoveWithToleranceActionGoal action_goal;
  planner_cspace_msgs::MoveWithToleranceActionResult action_result;
  planner_cspace_msgs::MoveWithToleranceActionFeedback action_feedback;
  typedef boost::shared_ptr<MoveWithToleranceAction> Ptr;
  typedef boost::shared_ptr<const MoveWithToleranceAction> ConstPtr;
  template <class S> void visit(S& s) { s.f("action_goal", action_goal); s.f("action_result", action_result); s.f("action_feedback", action_feedback); }
  static const char* rosDataType() { return "planner_cspace_msgs/MoveWithToleranceAction"; }
  typedef MoveWithToleranceGoal Goal_; typedef MoveWithToleranceResult Result_; typedef MoveWithToleranceFeedback Feedback_;
};
typedef MoveWithToleranceAction::Ptr MoveWithToleranceActionPtr; typedef MoveWithToleranceAction::ConstPtr MoveWithToleranceActionConstPtr;
inline bool operator==(const MoveWithToleranceAction& a, const MoveWithToleranceAction& b) { return a.action_goal == b.action_goal && a.action_result == b.action_result && a.action_feedback == b.action_feedback; }
inline bool operator!=(const MoveWithToleranceAction& a, const MoveWithToleranceAction& b) { return !(a == b); }
}  // namespace
