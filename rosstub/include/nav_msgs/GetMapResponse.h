// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <nav_msgs/OccupancyGrid.h>
namespace nav_msgs
{
struct GetMapResponse
{
  nav_msgs::OccupancyGrid map;
  typedef boost::shared_ptr<GetMapResponse> Ptr;
  typedef boost::shared_ptr<const GetMapResponse> ConstPtr;
  template <class S> void visit(S& s) { s.f("map", map); }
  static const char* rosDataType() { return "nav_msgs/GetMapResponse"; }
};
typedef GetMapResponse::Ptr GetMapResponsePtr; typedef GetMapResponse::ConstPtr GetMapResponseConstPtr;
inline bool operator==(const GetMapResponse& a, const GetMapResponse& b) { return a.map == b.map; }
inline bool operator!=(const GetMapResponse& a, const GetMapResponse& b) { return !(a == b); }
}  // namespace
