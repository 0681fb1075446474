// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
#include <visualization_msgs/InteractiveMarkerControl.h>
#include <visualization_msgs/MenuEntry.h>
namespace visualization_msgs
{
struct InteractiveMarker
{
  std_msgs::Header header;
  geometry_msgs::Pose pose;
  std::string name;
  std::string description;
  float scale{};
  std::vector<visualization_msgs::MenuEntry> menu_entries;
  std::vector<visualization_msgs::InteractiveMarkerControl> controls;
  typedef boost::shared_ptr<InteractiveMarker> Ptr;
  typedef boost::shared_ptr<const InteractiveMarker> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("pose", pose); s.f("name", name); s.f("description", description); s.f("scale", scale); s.f("menu_entries", menu_entries); s.f("controls", controls); }
  static const char* rosDataType() { return "visualization_msgs/InteractiveMarker"; }
};
typedef InteractiveMarker::Ptr InteractiveMarkerPtr; typedef InteractiveMarker::ConstPtr InteractiveMarkerConstPtr;
inline bool operator==(const InteractiveMarker& a, const InteractiveMarker& b) { return a.header == b.header && a.pose == b.pose && a.name == b.name && a.description == b.description && a.scale == b.scale && a.menu_entries == b.menu_entries && a.controls == b.controls; }
inline bool operator!=(const InteractiveMarker& a, const InteractiveMarker& b) { return !(a == b); }
}  // namespace
