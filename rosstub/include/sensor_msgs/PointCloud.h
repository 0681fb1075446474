// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Point32.h>
#include <sensor_msgs/ChannelFloat32.h>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct PointCloud
{
  std_msgs::Header header;
  std::vector<geometry_msgs::Point32> points;
  std::vector<sensor_msgs::ChannelFloat32> channels;
  typedef boost::shared_ptr<PointCloud> Ptr;
  typedef boost::shared_ptr<const PointCloud> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("points", points); s.f("channels", channels); }
  static const char* rosDataType() { return "sensor_msgs/PointCloud"; }
};
typedef PointCloud::Ptr PointCloudPtr; typedef PointCloud::ConstPtr PointCloudConstPtr;
inline bool operator==(const PointCloud& a, const PointCloud& b) { return a.header == b.header && a.points == b.points && a.channels == b.channels; }
inline bool operator!=(const PointCloud& a, const PointCloud& b) { return !(a == b); }
}  // namespace
