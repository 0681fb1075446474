// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_srvs
{
struct EmptyResponse
{
  typedef boost::shared_ptr<EmptyResponse> Ptr;
  typedef boost::shared_ptr<const EmptyResponse> ConstPtr;
  template <class S> void visit(S& s) {  }
  static const char* rosDataType() { return "std_srvs/EmptyResponse"; }
};
typedef EmptyResponse::Ptr EmptyResponsePtr; typedef EmptyResponse::ConstPtr EmptyResponseConstPtr;
inline bool operator==(const EmptyResponse& a, const EmptyResponse& b) { return true; }
inline bool operator!=(const EmptyResponse& a, const EmptyResponse& b) { return !(a == b); }
}  // namespace
