// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <visualization_msgs/InteractiveMarker.h>
#include <visualization_msgs/InteractiveMarkerPose.h>
namespace visualization_msgs
{
struct InteractiveMarkerUpdate
{
  enum { KEEP_ALIVE = 0, UPDATE = 1 };
  std::string server_id;
  uint64_t seq_num{};
  uint8_t type{};
  std::vector<visualization_msgs::InteractiveMarker> markers;
  std::vector<visualization_msgs::InteractiveMarkerPose> poses;
  std::vector<std::string> erases;
  typedef boost::shared_ptr<InteractiveMarkerUpdate> Ptr;
  typedef boost::shared_ptr<const InteractiveMarkerUpdate> ConstPtr;
  template <class S> void visit(S& s) { s.f("server_id", server_id); s.f("seq_num", seq_num); s.f("type", type); s.f("markers", markers); s.f("poses", poses); s.f("erases", erases); }
  static const char* rosDataType() { return "visualization_msgs/InteractiveMarkerUpdate"; }
};
typedef InteractiveMarkerUpdate::Ptr InteractiveMarkerUpdatePtr; typedef InteractiveMarkerUpdate::ConstPtr InteractiveMarkerUpdateConstPtr;
inline bool operator==(const InteractiveMarkerUpdate& a, const InteractiveMarkerUpdate& b) { return a.server_id == b.server_id && a.seq_num == b.seq_num && a.type == b.type && a.markers == b.markers && a.poses == b.poses && a.erases == b.erases; }
inline bool operator!=(const InteractiveMarkerUpdate& a, const InteractiveMarkerUpdate& b) { return !(a == b); }
}  // namespace
