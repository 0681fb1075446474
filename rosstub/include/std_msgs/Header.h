// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_msgs
{
struct Header
{
  uint32_t seq{};
  ros::Time stamp;
  std::string frame_id;
  typedef boost::shared_ptr<Header> Ptr;
  typedef boost::shared_ptr<const Header> ConstPtr;
  template <class S> void visit(S& s) { s.f("seq", seq); s.f("stamp", stamp); s.f("frame_id", frame_id); }
  static const char* rosDataType() { return "std_msgs/Header"; }
};
typedef Header::Ptr HeaderPtr; typedef Header::ConstPtr HeaderConstPtr;
inline bool operator==(const Header& a, const Header& b) { return a.seq == b.seq && a.stamp == b.stamp && a.frame_id == b.frame_id; }
inline bool operator!=(const Header& a, const Header& b) { return !(a == b); }
}  // namespace
