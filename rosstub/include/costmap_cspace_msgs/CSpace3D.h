// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <std_msgs/Header.h>
namespace costmap_cspace_msgs
{
struct CSpace3D
{
  std_msgs::Header header;
  costmap_cspace_msgs::MapMetaData3D info;
  std::vector<int8_t> data;
  typedef boost::shared_ptr<CSpace3D> Ptr;
  typedef boost::shared_ptr<const CSpace3D> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("info", info); s.f("data", data); }
  static const char* rosDataType() { return "costmap_cspace_msgs/CSpace3D"; }
};
typedef CSpace3D::Ptr CSpace3DPtr; typedef CSpace3D::ConstPtr CSpace3DConstPtr;
inline bool operator==(const CSpace3D& a, const CSpace3D& b) { return a.header == b.header && a.info == b.info && a.data == b.data; }
inline bool operator!=(const CSpace3D& a, const CSpace3D& b) { return !(a == b); }
}  // namespace
