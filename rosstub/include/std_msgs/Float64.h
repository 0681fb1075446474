// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_msgs
{
struct Float64
{
  double data{};
  typedef boost::shared_ptr<Float64> Ptr;
  typedef boost::shared_ptr<const Float64> ConstPtr;
  template <class S> void visit(S& s) { s.f("data", data); }
  static const char* rosDataType() { return "std_msgs/Float64"; }
};
typedef Float64::Ptr Float64Ptr; typedef Float64::ConstPtr Float64ConstPtr;
inline bool operator==(const Float64& a, const Float64& b) { return a.data == b.data; }
inline bool operator!=(const Float64& a, const Float64& b) { return !(a == b); }
}  // namespace
