// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/PoseStamped.h>
namespace move_base_msgs
{
struct MoveBaseFeedback
{
  geometry_msgs::PoseStamped base_position;
  typedef boost::shared_ptr<MoveBaseFeedback> Ptr;
  typedef boost::shared_ptr<const MoveBaseFeedback> ConstPtr;
  template <class S> void visit(S& s) { s.f("base_position", base_position); }
  static const char* rosDataType() { return "move_base_msgs/MoveBaseFeedback"; }
};
typedef MoveBaseFeedback::Ptr MoveBaseFeedbackPtr; typedef MoveBaseFeedback::ConstPtr MoveBaseFeedbackConstPtr;
inline bool operator==(const MoveBaseFeedback& a, const MoveBaseFeedback& b) { return a.base_position == b.base_position; }
inline bool operator!=(const MoveBaseFeedback& a, const MoveBaseFeedback& b) { return !(a == b); }
}  // namespace
