// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace trajectory_tracker_msgs
{
struct ChangePathRequest
{
  std::string filename;
  int32_t id{};
  typedef boost::shared_ptr<ChangePathRequest> Ptr;
  typedef boost::shared_ptr<const ChangePathRequest> ConstPtr;
  template <class S> void visit(S& s) { s.f("filename", filename); s.f("id", id); }
  static const char* rosDataType() { return "trajectory_tracker_msgs/ChangePathRequest"; }
};
typedef ChangePathRequest::Ptr ChangePathRequestPtr; typedef ChangePathRequest::ConstPtr ChangePathRequestConstPtr;
inline bool operator==(const ChangePathRequest& a, const ChangePathRequest& b) { return a.filename == b.filename && a.id == b.id; }
inline bool operator!=(const ChangePathRequest& a, const ChangePathRequest& b) { return !(a == b); }
}  // namespace
