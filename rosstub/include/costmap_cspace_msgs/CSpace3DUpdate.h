// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <std_msgs/Header.h>
namespace costmap_cspace_msgs
{
struct CSpace3DUpdate
{
  std_msgs::Header header;
  uint32_t x{};
  uint32_t y{};
  uint32_t yaw{};
  uint32_t width{};
  uint32_t height{};
  uint32_t angle{};
  std::vector<int8_t> data;
  typedef boost::shared_ptr<CSpace3DUpdate> Ptr;
  typedef boost::shared_ptr<const CSpace3DUpdate> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("x", x); s.f("y", y); s.f("yaw", yaw); s.f("width", width); s.f("height", height); s.f("angle", angle); s.f("data", data); }
  static const char* rosDataType() { return "costmap_cspace_msgs/CSpace3DUpdate"; }
};
typedef CSpace3DUpdate::Ptr CSpace3DUpdatePtr; typedef CSpace3DUpdate::ConstPtr CSpace3DUpdateConstPtr;
inline bool operator==(const CSpace3DUpdate& a, const CSpace3DUpdate& b) { return a.header == b.header && a.x == b.x && a.y == b.y && a.yaw == b.yaw && a.width == b.width && a.height == b.height && a.angle == b.angle && a.data == b.data; }
inline bool operator!=(const CSpace3DUpdate& a, const CSpace3DUpdate& b) { return !(a == b); }
}  // namespace
