// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/PoseStamped.h>
namespace planner_cspace_msgs
{
struct MoveWithToleranceFeedback
{
  geometry_msgs::PoseStamped base_position;
  typedef boost::shared_ptr<MoveWithToleranceFeedback> Ptr;
  typedef boost::shared_ptr<const MoveWithToleranceFeedback> ConstPtr;
  template <class S> void visit(S& s) { s.f("base_position", base_position); }
  static const char* rosDataType() { return "planner_cspace_msgs/MoveWithToleranceFeedback"; }
};
typedef MoveWithToleranceFeedback::Ptr MoveWithToleranceFeedbackPtr; typedef MoveWithToleranceFeedback::ConstPtr MoveWithToleranceFeedbackConstPtr;
inline bool operator==(const MoveWithToleranceFeedback& a, const MoveWithToleranceFeedback& b) { return a.base_position == b.base_position; }
inline bool operator!=(const MoveWithToleranceFeedback& a, const MoveWithToleranceFeedback& b) { return !(a == b); }
}  // namespace
