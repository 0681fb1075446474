// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
namespace safety_limiter_msgs
{
struct SafetyLimiterStatus
{
  std_msgs::Header header;
  float limit_ratio{};
  uint8_t is_cloud_available{};
  uint8_t has_watchdog_timed_out{};
  ros::Time stuck_started_since;
  typedef boost::shared_ptr<SafetyLimiterStatus> Ptr;
  typedef boost::shared_ptr<const SafetyLimiterStatus> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("limit_ratio", limit_ratio); s.f("is_cloud_available", is_cloud_available); s.f("has_watchdog_timed_out", has_watchdog_timed_out); s.f("stuck_started_since", stuck_started_since); }
  static const char* rosDataType() { return "safety_limiter_msgs/SafetyLimiterStatus"; }
};
typedef SafetyLimiterStatus::Ptr SafetyLimiterStatusPtr; typedef SafetyLimiterStatus::ConstPtr SafetyLimiterStatusConstPtr;
inline bool operator==(const SafetyLimiterStatus& a, const SafetyLimiterStatus& b) { return a.header == b.header && a.limit_ratio == b.limit_ratio && a.is_cloud_available == b.is_cloud_available && a.has_watchdog_timed_out == b.has_watchdog_timed_out && a.stuck_started_since == b.stuck_started_since; }
inline bool operator!=(const SafetyLimiterStatus& a, const SafetyLimiterStatus& b) { return !(a == b); }
}  // namespace
