// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace trajectory_tracker_msgs
{
struct ChangePathResponse
{
  uint8_t success{};
  typedef boost::shared_ptr<ChangePathResponse> Ptr;
  typedef boost::shared_ptr<const ChangePathResponse> ConstPtr;
  template <class S> void visit(S& s) { s.f("success", success); }
  static const char* rosDataType() { return "trajectory_tracker_msgs/ChangePathResponse"; }
};
typedef ChangePathResponse::Ptr ChangePathResponsePtr; typedef ChangePathResponse::ConstPtr ChangePathResponseConstPtr;
inline bool operator==(const ChangePathResponse& a, const ChangePathResponse& b) { return a.success == b.success; }
inline bool operator!=(const ChangePathResponse& a, const ChangePathResponse& b) { return !(a == b); }
}  // namespace
