// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace planner_cspace_msgs
{
struct MoveWithToleranceResult
{
  typedef boost::shared_ptr<MoveWithToleranceResult> Ptr;
  typedef boost::shared_ptr<const MoveWithToleranceResult> ConstPtr;
  template <class S> void visit(S& s) {  }
  static const char* rosDataType() { return "planner_cspace_msgs/MoveWithToleranceResult"; }
};
typedef MoveWithToleranceResult::Ptr MoveWithToleranceResultPtr; typedef MoveWithToleranceResult::ConstPtr MoveWithToleranceResultConstPtr;
inline bool operator==(const MoveWithToleranceResult& a, const MoveWithToleranceResult& b) { return true; }
inline bool operator!=(const MoveWithToleranceResult& a, const MoveWithToleranceResult& b) { return !(a == b); }
}  // namespace
