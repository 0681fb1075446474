// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct JointState
{
  std_msgs::Header header;
  std::vector<std::string> name;
  std::vector<double> position;
  std::vector<double> velocity;
  std::vector<double> effort;
  typedef boost::shared_ptr<JointState> Ptr;
  typedef boost::shared_ptr<const JointState> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("name", name); s.f("position", position); s.f("velocity", velocity); s.f("effort", effort); }
  static const char* rosDataType() { return "sensor_msgs/JointState"; }
};
typedef JointState::Ptr JointStatePtr; typedef JointState::ConstPtr JointStateConstPtr;
inline bool operator==(const JointState& a, const JointState& b) { return a.header == b.header && a.name == b.name && a.position == b.position && a.velocity == b.velocity && a.effort == b.effort; }
inline bool operator!=(const JointState& a, const JointState& b) { return !(a == b); }
}  // namespace
