// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
namespace planner_cspace_msgs
{
struct PlannerStatus
{
  enum { DONE = 0, DOING = 1, FINISHING = 2, GOING_WELL = 0, IN_ROCK = 1, PATH_NOT_FOUND = 2, INTERNAL_ERROR = 3, DATA_MISSING = 4 };
  std_msgs::Header header;
  uint8_t status{};
  uint8_t error{};
  typedef boost::shared_ptr<PlannerStatus> Ptr;
  typedef boost::shared_ptr<const PlannerStatus> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("status", status); s.f("error", error); }
  static const char* rosDataType() { return "planner_cspace_msgs/PlannerStatus"; }
};
typedef PlannerStatus::Ptr PlannerStatusPtr; typedef PlannerStatus::ConstPtr PlannerStatusConstPtr;
inline bool operator==(const PlannerStatus& a, const PlannerStatus& b) { return a.header == b.header && a.status == b.status && a.error == b.error; }
inline bool operator!=(const PlannerStatus& a, const PlannerStatus& b) { return !(a == b); }
}  // namespace
