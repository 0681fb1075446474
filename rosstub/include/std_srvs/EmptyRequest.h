// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_srvs
{
struct EmptyRequest
{
  typedef boost::shared_ptr<EmptyRequest> Ptr;
  typedef boost::shared_ptr<const EmptyRequest> ConstPtr;
  template <class S> void visit(S& s) {  }
  static const char* rosDataType() { return "std_srvs/EmptyRequest"; }
};
typedef EmptyRequest::Ptr EmptyRequestPtr; typedef EmptyRequest::ConstPtr EmptyRequestConstPtr;
inline bool operator==(const EmptyRequest& a, const EmptyRequest& b) { return true; }
inline bool operator!=(const EmptyRequest& a, const EmptyRequest& b) { return !(a == b); }
}  // namespace
