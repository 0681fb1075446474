// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <sensor_msgs/PointField.h>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct PointCloud2
{
  std_msgs::Header header;
  uint32_t height{};
  uint32_t width{};
  std::vector<sensor_msgs::PointField> fields;
  uint8_t is_bigendian{};
  uint32_t point_step{};
  uint32_t row_step{};
  std::vector<uint8_t> data;
  uint8_t is_dense{};
  typedef boost::shared_ptr<PointCloud2> Ptr;
  typedef boost::shared_ptr<const PointCloud2> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("height", height); s.f("width", width); s.f("fields", fields); s.f("is_bigendian", is_bigendian); s.f("point_step", point_step); s.f("row_step", row_step); s.f("data", data); s.f("is_dense", is_dense); }
  static const char* rosDataType() { return "sensor_msgs/PointCloud2"; }
};
typedef PointCloud2::Ptr PointCloud2Ptr; typedef PointCloud2::ConstPtr PointCloud2ConstPtr;
inline bool operator==(const PointCloud2& a, const PointCloud2& b) { return a.header == b.header && a.height == b.height && a.width == b.width && a.fields == b.fields && a.is_bigendian == b.is_bigendian && a.point_step == b.point_step && a.row_step == b.row_step && a.data == b.data && a.is_dense == b.is_dense; }
inline bool operator!=(const PointCloud2& a, const PointCloud2& b) { return !(a == b); }
}  // namespace
