// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <actionlib_msgs/GoalStatus.h>
#include <move_base_msgs/MoveBaseResult.h>
#include <std_msgs/Header.h>
namespace move_base_msgs
{
struct MoveBaseActionResult
{
  std_msgs::Header header;
  actionlib_msgs::GoalStatus status;
  move_base_msgs::MoveBaseResult result;
  typedef boost::shared_ptr<MoveBaseActionResult> Ptr;
  typedef boost::shared_ptr<const MoveBaseActionResult> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("status", status); s.f("result", result); }
  static const char* rosDataType() { return "move_base_msgs/MoveBaseActionResult"; }
};
typedef MoveBaseActionResult::Ptr MoveBaseActionResultPtr; typedef MoveBaseActionResult::ConstPtr MoveBaseActionResultConstPtr;
inline bool operator==(const MoveBaseActionResult& a, const MoveBaseActionResult& b) { return a.header == b.header && a.status == b.status && a.result == b.result; }
inline bool operator!=(const MoveBaseActionResult& a, const MoveBaseActionResult& b) { return !(a == b); }
}  // namespace
