// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace nav_msgs
{
struct GetMapRequest
{
  typedef boost::shared_ptr<GetMapRequest> Ptr;
  typedef boost::shared_ptr<const GetMapRequest> ConstPtr;
  template <class S> void visit(S& s) {  }
  static const char* rosDataType() { return "nav_msgs/GetMapRequest"; }
};
typedef GetMapRequest::Ptr GetMapRequestPtr; typedef GetMapRequest::ConstPtr GetMapRequestConstPtr;
inline bool operator==(const GetMapRequest& a, const GetMapRequest& b) { return true; }
inline bool operator!=(const GetMapRequest& a, const GetMapRequest& b) { return !(a == b); }
}  // namespace
