// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Pose.h>
namespace nav_msgs
{
struct MapMetaData
{
  ros::Time map_load_time;
  float resolution{};
  uint32_t width{};
  uint32_t height{};
  geometry_msgs::Pose origin;
  typedef boost::shared_ptr<MapMetaData> Ptr;
  typedef boost::shared_ptr<const MapMetaData> ConstPtr;
  template <class S> void visit(S& s) { s.f("map_load_time", map_load_time); s.f("resolution", resolution); s.f("width", width); s.f("height", height); s.f("origin", origin); }
  static const char* rosDataType() { return "nav_msgs/MapMetaData"; }
};
typedef MapMetaData::Ptr MapMetaDataPtr; typedef MapMetaData::ConstPtr MapMetaDataConstPtr;
inline bool operator==(const MapMetaData& a, const MapMetaData& b) { return a.map_load_time == b.map_load_time && a.resolution == b.resolution && a.width == b.width && a.height == b.height && a.origin == b.origin; }
inline bool operator!=(const MapMetaData& a, const MapMetaData& b) { return !(a == b); }
}  // namespace
