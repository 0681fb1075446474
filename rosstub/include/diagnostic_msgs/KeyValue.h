// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace diagnostic_msgs
{
struct KeyValue
{
  std::string key;
  std::string value;
  typedef boost::shared_ptr<KeyValue> Ptr;
  typedef boost::shared_ptr<const KeyValue> ConstPtr;
  template <class S> void visit(S& s) { s.f("key", key); s.f("value", value); }
  static const char* rosDataType() { return "diagnostic_msgs/KeyValue"; }
};
typedef KeyValue::Ptr KeyValuePtr; typedef KeyValue::ConstPtr KeyValueConstPtr;
inline bool operator==(const KeyValue& a, const KeyValue& b) { return a.key == b.key && a.value == b.value; }
inline bool operator!=(const KeyValue& a, const KeyValue& b) { return !(a == b); }
}  // namespace
