// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace visualization_msgs
{
struct InteractiveMarkerFeedback
{
  enum { KEEP_ALIVE = 0, POSE_UPDATE = 1, MENU_SELECT = 2, BUTTON_CLICK = 3, MOUSE_DOWN = 4, MOUSE_UP = 5 };
  std_msgs::Header header;
  std::string client_id;
  std::string marker_name;
  std::string control_name;
  uint8_t event_type{};
  geometry_msgs::Pose pose;
  uint32_t menu_entry_id{};
  geometry_msgs::Point mouse_point;
  uint8_t mouse_point_valid{};
  typedef boost::shared_ptr<InteractiveMarkerFeedback> Ptr;
  typedef boost::shared_ptr<const InteractiveMarkerFeedback> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("client_id", client_id); s.f("marker_name", marker_name); s.f("control_name", control_name); s.f("event_type", event_type); s.f("pose", pose); s.f("menu_entry_id", menu_entry_id); s.f("mouse_point", mouse_point); s.f("mouse_point_valid", mouse_point_valid); }
  static const char* rosDataType() { return "visualization_msgs/InteractiveMarkerFeedback"; }
};
typedef InteractiveMarkerFeedback::Ptr InteractiveMarkerFeedbackPtr; typedef InteractiveMarkerFeedback::ConstPtr InteractiveMarkerFeedbackConstPtr;
inline bool operator==(const InteractiveMarkerFeedback& a, const InteractiveMarkerFeedback& b) { return a.header == b.header && a.client_id == b.client_id && a.marker_name == b.marker_name && a.control_name == b.control_name && a.event_type == b.event_type && a.pose == b.pose && a.menu_entry_id == b.menu_entry_id && a.mouse_point == b.mouse_point && a.mouse_point_valid == b.mouse_point_valid; }
inline bool operator!=(const InteractiveMarkerFeedback& a, const InteractiveMarkerFeedback& b) { return !(a == b); }
}  // namespace
