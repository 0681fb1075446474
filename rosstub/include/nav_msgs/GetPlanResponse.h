// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <nav_msgs/Path.h>
namespace nav_msgs
{
struct GetPlanResponse
{
  nav_msgs::Path plan;
  typedef boost::shared_ptr<GetPlanResponse> Ptr;
  typedef boost::shared_ptr<const GetPlanResponse> ConstPtr;
  template <class S> void visit(S& s) { s.f("plan", plan); }
  static const char* rosDataType() { return "nav_msgs/GetPlanResponse"; }
};
typedef GetPlanResponse::Ptr GetPlanResponsePtr; typedef GetPlanResponse::ConstPtr GetPlanResponseConstPtr;
inline bool operator==(const GetPlanResponse& a, const GetPlanResponse& b) { return a.plan == b.plan; }
inline bool operator!=(const GetPlanResponse& a, const GetPlanResponse& b) { return !(a == b); }
}  // namespace
