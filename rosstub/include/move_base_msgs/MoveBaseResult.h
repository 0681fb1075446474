// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace move_base_msgs
{
struct MoveBaseResult
{
  typedef boost::shared_ptr<MoveBaseResult> Ptr;
  typedef boost::shared_ptr<const MoveBaseResult> ConstPtr;
  template <class S> void visit(S& s) {  }
  static const char* rosDataType() { return "move_base_msgs/MoveBaseResult"; }
};
typedef MoveBaseResult::Ptr MoveBaseResultPtr; typedef MoveBaseResult::ConstPtr MoveBaseResultConstPtr;
inline bool operator==(const MoveBaseResult& a, const MoveBaseResult& b) { return true; }
inline bool operator!=(const MoveBaseResult& a, const MoveBaseResult& b) { return !(a == b); }
}  // namespace
