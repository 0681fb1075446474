// Stand-in for interactive_markers::InteractiveMarkerServer: insert/clear take effect with applyChanges(); feedback for markers
// which are not in the applied set is dropped, as in the original.
#pragma once
#include <ros/ros.h>
#include <visualization_msgs/InteractiveMarker.h>
#include <visualization_msgs/InteractiveMarkerFeedback.h>
#include <boost/function.hpp>
#include <map>
namespace interactive_markers
{
class InteractiveMarkerServer;
}
namespace sim
{
inline interactive_markers::InteractiveMarkerServer*& markerServer() { static interactive_markers::InteractiveMarkerServer* s = nullptr; return s; }
inline std::function<void()>& markersApplied() { static std::function<void()> f; return f; }
}
namespace interactive_markers
{
class InteractiveMarkerServer
{
public:
  typedef boost::function<void(const visualization_msgs::InteractiveMarkerFeedbackConstPtr&)> FeedbackCallback;
  struct Entry { visualization_msgs::InteractiveMarker marker; FeedbackCallback cb; };
  explicit InteractiveMarkerServer(const std::string& ns, const std::string& = "", bool = false) : ns_(ns) { sim::markerServer() = this; }
  ~InteractiveMarkerServer() { if (sim::markerServer() == this) sim::markerServer() = nullptr; }
  void insert(const visualization_msgs::InteractiveMarker& m) { pending_[m.name].marker = m; }
  void insert(const visualization_msgs::InteractiveMarker& m, FeedbackCallback cb, uint8_t = 255) { Entry& e = pending_[m.name]; e.marker = m; e.cb = cb; }
  bool erase(const std::string& n) { return pending_.erase(n) > 0; }
  void clear() { pending_.clear(); }
  bool empty() const { return applied_.empty(); }
  size_t size() const { return applied_.size(); }
  bool setPose(const std::string& n, const geometry_msgs::Pose& p, const std_msgs::Header& = std_msgs::Header()) { auto i = pending_.find(n); if (i == pending_.end()) return false; i->second.marker.pose = p; return true; }
  bool get(const std::string& n, visualization_msgs::InteractiveMarker& m) const { auto i = pending_.find(n); if (i == pending_.end()) return false; m = i->second.marker; return true; }
  void applyChanges() { applied_ = pending_; if (sim::markersApplied()) sim::markersApplied()(); }
  const std::map<std::string, Entry>& applied() const { return applied_; }
  bool feedback(const visualization_msgs::InteractiveMarkerFeedback& f)
  {
    auto i = applied_.find(f.marker_name);
    if (i == applied_.end() || !i->second.cb) return false;
    FeedbackCallback cb = i->second.cb;
    cb(visualization_msgs::InteractiveMarkerFeedbackConstPtr(new visualization_msgs::InteractiveMarkerFeedback(f)));
    return true;
  }

private:
  std::string ns_;
  std::map<std::string, Entry> pending_, applied_;
};
}  // namespace interactive_markers
