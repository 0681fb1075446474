// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Pose.h>
namespace costmap_cspace_msgs
{
struct MapMetaData3D
{
  ros::Time map_load_time;
  float linear_resolution{};
  float angular_resolution{};
  uint32_t width{};
  uint32_t height{};
  uint32_t angle{};
  geometry_msgs::Pose origin;
  typedef boost::shared_ptr<MapMetaData3D> Ptr;
  typedef boost::shared_ptr<const MapMetaData3D> ConstPtr;
  template <class S> void visit(S& s) { s.f("map_load_time", map_load_time); s.f("linear_resolution", linear_resolution); s.f("angular_resolution", angular_resolution); s.f("width", width); s.f("height", height); s.f("angle", angle); s.f("origin", origin); }
  static const char* rosDataType() { return "costmap_cspace_msgs/MapMetaData3D"; }
};
typedef MapMetaData3D::Ptr MapMetaData3DPtr; typedef MapMetaData3D::ConstPtr MapMetaData3DConstPtr;
inline bool operator==(const MapMetaData3D& a, const MapMetaData3D& b) { return a.map_load_time == b.map_load_time && a.linear_resolution == b.linear_resolution && a.angular_resolution == b.angular_resolution && a.width == b.width && a.height == b.height && a.angle == b.angle && a.origin == b.origin; }
inline bool operator!=(const MapMetaData3D& a, const MapMetaData3D& b) { return !(a == b); }
}  // namespace
