// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <nav_msgs/MapMetaData.h>
#include <std_msgs/Header.h>
namespace nav_msgs
{
struct OccupancyGrid
{
  std_msgs::Header header;
  nav_msgs::MapMetaData info;
  std::vector<int8_t> data;
  typedef boost::shared_ptr<OccupancyGrid> Ptr;
  typedef boost::shared_ptr<const OccupancyGrid> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("info", info); s.f("data", data); }
  static const char* rosDataType() { return "nav_msgs/OccupancyGrid"; }
};
typedef OccupancyGrid::Ptr OccupancyGridPtr; typedef OccupancyGrid::ConstPtr OccupancyGridConstPtr;
inline bool operator==(const OccupancyGrid& a, const OccupancyGrid& b) { return a.header == b.header && a.info == b.info && a.data == b.data; }
inline bool operator!=(const OccupancyGrid& a, const OccupancyGrid& b) { return !(a == b); }
}  // namespace
