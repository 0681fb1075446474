// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <actionlib_msgs/GoalStatus.h>
#include <move_base_msgs/MoveBaseFeedback.h>
#include <std_msgs/Header.h>
namespace move_base_msgs
{
struct MoveBaseActionFeedback
{
  std_msgs::Header header;
  actionlib_msgs::GoalStatus status;
  move_base_msgs::MoveBaseFeedback feedback;
  typedef boost::shared_ptr<MoveBaseActionFeedback> Ptr;
  typedef boost::shared_ptr<const MoveBaseActionFeedback> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("status", status); s.f("feedback", feedback); }
  static const char* rosDataType() { return "move_base_msgs/MoveBaseActionFeedback"; }
};
typedef MoveBaseActionFeedback::Ptr MoveBaseActionFeedbackPtr; typedef MoveBaseActionFeedback::ConstPtr MoveBaseActionFeedbackConstPtr;
inline bool operator==(const MoveBaseActionFeedback& a, const MoveBaseActionFeedback& b) { return a.header == b.header && a.status == b.status && a.feedback == b.feedback; }
inline bool operator!=(const MoveBaseActionFeedback& a, const MoveBaseActionFeedback& b) { return !(a == b); }
}  // namespace
