// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_msgs
{
struct Empty
{
  typedef boost::shared_ptr<Empty> Ptr;
  typedef boost::shared_ptr<const Empty> ConstPtr;
  template <class S> void visit(S& s) {  }
  static const char* rosDataType() { return "std_msgs/Empty"; }
};
typedef Empty::Ptr EmptyPtr; typedef Empty::ConstPtr EmptyConstPtr;
inline bool operator==(const Empty& a, const Empty& b) { return true; }
inline bool operator!=(const Empty& a, const Empty& b) { return !(a == b); }
}  // namespace
