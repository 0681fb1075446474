// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/PoseStamped.h>
namespace nav_msgs
{
struct GetPlanRequest
{
  geometry_msgs::PoseStamped start;
  geometry_msgs::PoseStamped goal;
  float tolerance{};
  typedef boost::shared_ptr<GetPlanRequest> Ptr;
  typedef boost::shared_ptr<const GetPlanRequest> ConstPtr;
  template <class S> void visit(S& s) { s.f("start", start); s.f("goal", goal); s.f("tolerance", tolerance); }
  static const char* rosDataType() { return "nav_msgs/GetPlanRequest"; }
};
typedef GetPlanRequest::Ptr GetPlanRequestPtr; typedef GetPlanRequest::ConstPtr GetPlanRequestConstPtr;
inline bool operator==(const GetPlanRequest& a, const GetPlanRequest& b) { return a.start == b.start && a.goal == b.goal && a.tolerance == b.tolerance; }
inline bool operator!=(const GetPlanRequest& a, const GetPlanRequest& b) { return !(a == b); }
}  // namespace
