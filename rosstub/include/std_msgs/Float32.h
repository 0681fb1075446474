// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_msgs
{
struct Float32
{
  float data{};
  typedef boost::shared_ptr<Float32> Ptr;
  typedef boost::shared_ptr<const Float32> ConstPtr;
  template <class S> void visit(S& s) { s.f("data", data); }
  static const char* rosDataType() { return "std_msgs/Float32"; }
};
typedef Float32::Ptr Float32Ptr; typedef Float32::ConstPtr Float32ConstPtr;
inline bool operator==(const Float32& a, const Float32& b) { return a.data == b.data; }
inline bool operator!=(const Float32& a, const Float32& b) { return !(a == b); }
}  // namespace
