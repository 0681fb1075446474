// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace sensor_msgs
{
struct ChannelFloat32
{
  std::string name;
  std::vector<float> values;
  typedef boost::shared_ptr<ChannelFloat32> Ptr;
  typedef boost::shared_ptr<const ChannelFloat32> ConstPtr;
  template <class S> void visit(S& s) { s.f("name", name); s.f("values", values); }
  static const char* rosDataType() { return "sensor_msgs/ChannelFloat32"; }
};
typedef ChannelFloat32::Ptr ChannelFloat32Ptr; typedef ChannelFloat32::ConstPtr ChannelFloat32ConstPtr;
inline bool operator==(const ChannelFloat32& a, const ChannelFloat32& b) { return a.name == b.name && a.values == b.values; }
inline bool operator!=(const ChannelFloat32& a, const ChannelFloat32& b) { return !(a == b); }
}  // namespace
