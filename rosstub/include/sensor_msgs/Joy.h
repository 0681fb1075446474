// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct Joy
{
  std_msgs::Header header;
  std::vector<float> axes;
  std::vector<int32_t> buttons;
  typedef boost::shared_ptr<Joy> Ptr;
  typedef boost::shared_ptr<const Joy> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("axes", axes); s.f("buttons", buttons); }
  static const char* rosDataType() { return "sensor_msgs/Joy"; }
};
typedef Joy::Ptr JoyPtr; typedef Joy::ConstPtr JoyConstPtr;
inline bool operator==(const Joy& a, const Joy& b) { return a.header == b.header && a.axes == b.axes && a.buttons == b.buttons; }
inline bool operator!=(const Joy& a, const Joy& b) { return !(a == b); }
}  // namespace
