// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <actionlib_msgs/GoalStatus.h>
#include <planner_cspace_msgs/MoveWithToleranceResult.h>
#include <std_msgs/Header.h>
namespace planner_cspace_msgs
{
struct MoveWithToleranceActionResult
{
  std_msgs::Header header;
  actionlib_msgs::GoalStatus status;
  planner_cspace_msgs::MoveWithToleranceResult result;
  typedef boost::shared_ptr<MoveWithToleranceActionResult> Ptr;
  typedef boost::shared_ptr<const MoveWithToleranceActionResult> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("status", status); s.f("result", result); }
  static const char* rosDataType() { return "planner_cspace_msgs/MoveWithToleranceActionResult"; }
};
typedef MoveWithToleranceActionResult::Ptr MoveWithToleranceActionResultPtr; typedef MoveWithToleranceActionResult::ConstPtr MoveWithToleranceActionResultConstPtr;
inline bool operator==(const MoveWithToleranceActionResult& a, const MoveWithToleranceActionResult& b) { return a.header == b.header && a.status == b.status && a.result == b.result; }
inline bool operator!=(const MoveWithToleranceActionResult& a, const MoveWithToleranceActionResult& b) { return !(a == b); }
}  // namespace
