// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/ColorRGBA.h>
#include <std_msgs/Header.h>
namespace visualization_msgs
{
struct Marker
{
  enum { ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5, CUBE_LIST = 6, SPHERE_LIST = 7, POINTS = 8, TEXT_VIEW_FACING = 9, ADD = 0, MODIFY = 0, DELETE = 2 };
  std_msgs::Header header;
  std::string ns;
  int32_t id{};
  int32_t type{};
  int32_t action{};
  geometry_msgs::Pose pose;
  geometry_msgs::Vector3 scale;
  std_msgs::ColorRGBA color;
  ros::Duration lifetime;
  uint8_t frame_locked{};
  std::vector<geometry_msgs::Point> points;
  std::vector<std_msgs::ColorRGBA> colors;
  std::string text;
  typedef boost::shared_ptr<Marker> Ptr;
  typedef boost::shared_ptr<const Marker> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("ns", ns); s.f("id", id); s.f("type", type); s.f("action", action); s.f("pose", pose); s.f("scale", scale); s.f("color", color); s.f("lifetime", lifetime); s.f("frame_locked", frame_locked); s.f("points", points); s.f("colors", colors); s.f("text", text); }
  static const char* rosDataType() { return "visualization_msgs/Marker"; }
};
typedef Marker::Ptr MarkerPtr; typedef Marker::ConstPtr MarkerConstPtr;
inline bool operator==(const Marker& a, const Marker& b) { return a.header == b.header && a.ns == b.ns && a.id == b.id && a.type == b.type && a.action == b.action && a.pose == b.pose && a.scale == b.scale && a.color == b.color && a.lifetime == b.lifetime && a.frame_locked == b.frame_locked && a.points == b.points && a.colors == b.colors && a.text == b.text; }
inline bool operator!=(const Marker& a, const Marker& b) { return !(a == b); }
}  // namespace
