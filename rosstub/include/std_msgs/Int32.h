// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_msgs
{
struct Int32
{
  int32_t data{};
  typedef boost::shared_ptr<Int32> Ptr;
  typedef boost::shared_ptr<const Int32> ConstPtr;
  template <class S> void visit(S& s) { s.f("data", data); }
  static const char* rosDataType() { return "std_msgs/Int32"; }
};
typedef Int32::Ptr Int32Ptr; typedef Int32::ConstPtr Int32ConstPtr;
inline bool operator==(const Int32& a, const Int32& b) { return a.data == b.data; }
inline bool operator!=(const Int32& a, const Int32& b) { return !(a == b); }
}  // namespace
