// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Quaternion.h>
#include <visualization_msgs/Marker.h>
namespace visualization_msgs
{
struct InteractiveMarkerControl
{
  enum { INHERIT = 0, FIXED = 1, VIEW_FACING = 2, NONE = 0, MENU = 1, BUTTON = 2, MOVE_AXIS = 3, MOVE_PLANE = 4, ROTATE_AXIS = 5, MOVE_ROTATE = 6, MOVE_3D = 7, ROTATE_3D = 8, MOVE_ROTATE_3D = 9 };
  std::string name;
  geometry_msgs::Quaternion orientation;
  uint8_t orientation_mode{};
  uint8_t interaction_mode{};
  uint8_t always_visible{};
  std::vector<visualization_msgs::Marker> markers;
  uint8_t independent_marker_orientation{};
  std::string description;
  typedef boost::shared_ptr<InteractiveMarkerControl> Ptr;
  typedef boost::shared_ptr<const InteractiveMarkerControl> ConstPtr;
  template <class S> void visit(S& s) { s.f("name", name); s.f("orientation", orientation); s.f("orientation_mode", orientation_mode); s.f("interaction_mode", interaction_mode); s.f("always_visible", always_visible); s.f("markers", markers); s.f("independent_marker_orientation", independent_marker_orientation); s.f("description", description); }
  static const char* rosDataType() { return "visualization_msgs/InteractiveMarkerControl"; }
};
typedef InteractiveMarkerControl::Ptr InteractiveMarkerControlPtr; typedef InteractiveMarkerControl::ConstPtr InteractiveMarkerControlConstPtr;
inline bool operator==(const InteractiveMarkerControl& a, const InteractiveMarkerControl& b) { return a.name == b.name && a.orientation == b.orientation && a.orientation_mode == b.orientation_mode && a.interaction_mode == b.interaction_mode && a.always_visible == b.always_visible && a.markers == b.markers && a.independent_marker_orientation == b.independent_marker_orientation && a.description == b.description; }
inline bool operator!=(const InteractiveMarkerControl& a, const InteractiveMarkerControl& b) { return !(a == b); }
}  // namespace
