// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <actionlib_msgs/GoalStatus.h>
#include <planner_cspace_msgs/MoveWithToleranceFeedback.h>
#include <std_msgs/Header.h>
namespace planner_cspace_msgs
{
struct MoveWithToleranceActionFeedback
{
  std_msgs::Header header;
  actionlib_msgs::GoalStatus status;
  planner_cspace_msgs::MoveWithToleranceFeedback feedback;
  typedef boost::shared_ptr<MoveWithToleranceActionFeedback> Ptr;
  typedef boost::shared_ptr<const MoveWithToleranceActionFeedback> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("status", status); s.f("feedback", feedback); }
  static const char* rosDataType() { return "planner_cspace_msgs/MoveWithToleranceActionFeedback"; }
};
typedef MoveWithToleranceActionFeedback::Ptr MoveWithToleranceActionFeedbackPtr; typedef MoveWithToleranceActionFeedback::ConstPtr MoveWithToleranceActionFeedbackConstPtr;
inline bool operator==(const MoveWithToleranceActionFeedback& a, const MoveWithToleranceActionFeedback& b) { return a.header == b.header && a.status == b.status && a.feedback == b.feedback; }
inline bool operator!=(const MoveWithToleranceActionFeedback& a, const MoveWithToleranceActionFeedback& b) { return !(a == b); }
}  // namespace
