// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace actionlib_msgs
{
struct GoalID
{
  ros::Time stamp;
  std::string id;
  typedef boost::shared_ptr<GoalID> Ptr;
  typedef boost::shared_ptr<const GoalID> ConstPtr;
  template <class S> void visit(S& s) { s.f("stamp", stamp); s.f("id", id); }
  static const char* rosDataType() { return "actionlib_msgs/GoalID"; }
};
typedef GoalID::Ptr GoalIDPtr; typedef GoalID::ConstPtr GoalIDConstPtr;
inline bool operator==(const GoalID& a, const GoalID& b) { return a.stamp == b.stamp && a.id == b.id; }
inline bool operator!=(const GoalID& a, const GoalID& b) { return !(a == b); }
}  // namespace
