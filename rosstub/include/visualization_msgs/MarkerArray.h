// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <visualization_msgs/Marker.h>
namespace visualization_msgs
{
struct MarkerArray
{
  std::vector<visualization_msgs::Marker> markers;
  typedef boost::shared_ptr<MarkerArray> Ptr;
  typedef boost::shared_ptr<const MarkerArray> ConstPtr;
  template <class S> void visit(S& s) { s.f("markers", markers); }
  static const char* rosDataType() { return "visualization_msgs/MarkerArray"; }
};
typedef MarkerArray::Ptr MarkerArrayPtr; typedef MarkerArray::ConstPtr MarkerArrayConstPtr;
inline bool operator==(const MarkerArray& a, const MarkerArray& b) { return a.markers == b.markers; }
inline bool operator!=(const MarkerArray& a, const MarkerArray& b) { return !(a == b); }
}  // namespace
