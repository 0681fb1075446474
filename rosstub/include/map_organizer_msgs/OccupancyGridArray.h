// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <nav_msgs/OccupancyGrid.h>
namespace map_organizer_msgs
{
struct OccupancyGridArray
{
  std::vector<nav_msgs::OccupancyGrid> maps;
  typedef boost::shared_ptr<OccupancyGridArray> Ptr;
  typedef boost::shared_ptr<const OccupancyGridArray> ConstPtr;
  template <class S> void visit(S& s) { s.f("maps", maps); }
  static const char* rosDataType() { return "map_organizer_msgs/OccupancyGridArray"; }
};
typedef OccupancyGridArray::Ptr OccupancyGridArrayPtr; typedef OccupancyGridArray::ConstPtr OccupancyGridArrayConstPtr;
inline bool operator==(const OccupancyGridArray& a, const OccupancyGridArray& b) { return a.maps == b.maps; }
inline bool operator!=(const OccupancyGridArray& a, const OccupancyGridArray& b) { return !(a == b); }
}  // namespace
