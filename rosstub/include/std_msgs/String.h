// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_msgs
{
struct String
{
  std::string data;
  typedef boost::shared_ptr<String> Ptr;
  typedef boost::shared_ptr<const String> ConstPtr;
  template <class S> void visit(S& s) { s.f("data", data); }
  static const char* rosDataType() { return "std_msgs/String"; }
};
typedef String::Ptr StringPtr; typedef String::ConstPtr StringConstPtr;
inline bool operator==(const String& a, const String& b) { return a.data == b.data; }
inline bool operator!=(const String& a, const String& b) { return !(a == b); }
}  // namespace
