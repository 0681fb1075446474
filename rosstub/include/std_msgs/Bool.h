// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_msgs
{
struct Bool
{
  uint8_t data{};
  typedef boost::shared_ptr<Bool> Ptr;
  typedef boost::shared_ptr<const Bool> ConstPtr;
  template <class S> void visit(S& s) { s.f("data", data); }
  static const char* rosDataType() { return "std_msgs/Bool"; }
};
typedef Bool::Ptr BoolPtr; typedef Bool::ConstPtr BoolConstPtr;
inline bool operator==(const Bool& a, const Bool& b) { return a.data == b.data; }
inline bool operator!=(const Bool& a, const Bool& b) { return !(a == b); }
}  // namespace
