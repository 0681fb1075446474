// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct LaserScan
{
  std_msgs::Header header;
  float angle_min{};
  float angle_max{};
  float angle_increment{};
  float time_increment{};
  float scan_time{};
  float range_min{};
  float range_max{};
  std::vector<float> ranges;
  std::vector<float> intensities;
  typedef boost::shared_ptr<LaserScan> Ptr;
  typedef boost::shared_ptr<const LaserScan> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("angle_min", angle_min); s.f("angle_max", angle_max); s.f("angle_increment", angle_increment); s.f("time_increment", time_increment); s.f("scan_time", scan_time); s.f("range_min", range_min); s.f("range_max", range_max); s.f("ranges", ranges); s.f("intensities", intensities); }
  static const char* rosDataType() { return "sensor_msgs/LaserScan"; }
};
typedef LaserScan::Ptr LaserScanPtr; typedef LaserScan::ConstPtr LaserScanConstPtr;
inline bool operator==(const LaserScan& a, const LaserScan& b) { return a.header == b.header && a.angle_min == b.angle_min && a.angle_max == b.angle_max && a.angle_increment == b.angle_increment && a.time_increment == b.time_increment && a.scan_time == b.scan_time && a.range_min == b.range_min && a.range_max == b.range_max && a.ranges == b.ranges && a.intensities == b.intensities; }
inline bool operator!=(const LaserScan& a, const LaserScan& b) { return !(a == b); }
}  // namespace
