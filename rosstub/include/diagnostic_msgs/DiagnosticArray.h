// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <diagnostic_msgs/DiagnosticStatus.h>
#include <std_msgs/Header.h>
namespace diagnostic_msgs
{
struct DiagnosticArray
{
  std_msgs::Header header;
  std::vector<diagnostic_msgs::DiagnosticStatus> status;
  typedef boost::shared_ptr<DiagnosticArray> Ptr;
  typedef boost::shared_ptr<const DiagnosticArray> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("status", status); }
  static const char* rosDataType() { return "diagnostic_msgs/DiagnosticArray"; }
};
typedef DiagnosticArray::Ptr DiagnosticArrayPtr; typedef DiagnosticArray::ConstPtr DiagnosticArrayConstPtr;
inline bool operator==(const DiagnosticArray& a, const DiagnosticArray& b) { return a.header == b.header && a.status == b.status; }
inline bool operator!=(const DiagnosticArray& a, const DiagnosticArray& b) { return !(a == b); }
}  // namespace
