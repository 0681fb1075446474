// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <diagnostic_msgs/KeyValue.h>
namespace diagnostic_msgs
{
struct DiagnosticStatus
{
  enum { OK = 0, WARN = 1, ERROR = 2, STALE = 3 };
  int8_t level{};
  std::string name;
  std::string message;
  std::string hardware_id;
  std::vector<diagnostic_msgs::KeyValue> values;
  typedef boost::shared_ptr<DiagnosticStatus> Ptr;
  typedef boost::shared_ptr<const DiagnosticStatus> ConstPtr;
  template <class S> void visit(S& s) { s.f("level", level); s.f("name", name); s.f("message", message); s.f("hardware_id", hardware_id); s.f("values", values); }
  static const char* rosDataType() { return "diagnostic_msgs/DiagnosticStatus"; }
};
typedef DiagnosticStatus::Ptr DiagnosticStatusPtr; typedef DiagnosticStatus::ConstPtr DiagnosticStatusConstPtr;
inline bool operator==(const DiagnosticStatus& a, const DiagnosticStatus& b) { return a.level == b.level && a.name == b.name && a.message == b.message && a.hardware_id == b.hardware_id && a.values == b.values; }
inline bool operator!=(const DiagnosticStatus& a, const DiagnosticStatus& b) { return !(a == b); }
}  // namespace
