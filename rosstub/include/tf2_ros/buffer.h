// Stand-in for tf2 buffers: one tree in the simulated world, 10 s of history, interpolation and the usual exceptions.
#pragma once
#include <ros/ros.h>
#include <tf2/convert.h>
#include <geometry_msgs/TransformStamped.h>
namespace sim
{
struct TfEntry { ros::Time stamp; tf2::Vector3 t; tf2::Quaternion q; };
struct TfLink { std::string parent; bool is_static = false; std::deque<TfEntry> h; };
struct TfTree
{
  std::map<std::string, TfLink> links;
  std::set<std::string> frames;
  std::function<void(const geometry_msgs::TransformStamped&, bool is_static)> sink;  // transforms broadcast by the node
  double cache = 10.0;
  int lookups = 0;
};
inline TfTree& tf() { static TfTree* t = new TfTree; return *t; }
inline std::string tfName(const std::string& f) { return !f.empty() && f[0] == '/' ? f.substr(1) : f; }
inline void setTf(const geometry_msgs::TransformStamped& m, bool is_static = false)
{
  const std::string c = tfName(m.child_frame_id), p = tfName(m.header.frame_id);
  TfEntry e;
  e.stamp = m.header.stamp;
  e.t = tf2::Vector3(m.transform.translation.x, m.transform.translation.y, m.transform.translation.z);
  e.q = tf2::Quaternion(m.transform.rotation.x, m.transform.rotation.y, m.transform.rotation.z, m.transform.rotation.w);
  if (c == p || c.empty() || p.empty() || std::isnan(e.t.x() + e.t.y() + e.t.z() + e.q.x() + e.q.y() + e.q.z() + e.q.w()) || std::abs(e.q.length2() - 1.0) > 1e-2) return;
  tf().frames.insert(c);
  tf().frames.insert(p);
  TfLink& l = tf().links[c];
  if (l.parent != p) l.h.clear();
  l.parent = p;
  l.is_static = is_static;
  if (is_static) { l.h.clear(); l.h.push_back(e); return; }
  if (!l.h.empty() && e.stamp + ros::Duration(tf().cache) < l.h.back().stamp) return;
  auto it = l.h.end();
  while (it != l.h.begin() && e.stamp < (it - 1)->stamp) --it;
  if (it != l.h.begin() && (it - 1)->stamp == e.stamp) *(it - 1) = e;
  else l.h.insert(it, e);
  while (!l.h.empty() && l.h.front().stamp + ros::Duration(tf().cache) < l.h.back().stamp) l.h.pop_front();
}
inline void removeTf(const std::string& child) { tf().links.erase(tfName(child)); }
// pose of child in parent at a time; Time(0): newest
inline tf2::Transform tfAt(const std::string& child, const TfLink& l, const ros::Time& t)
{
  if (l.h.empty()) throw tf2::LookupException("no data for " + child);
  const TfEntry* a = nullptr;
  const TfEntry* b = nullptr;
  if (l.is_static || t.isZero()) return tf2::Transform(l.h.back().q, l.h.back().t);
  for (const auto& e : l.h)
  {
    if (e.stamp <= t) a = &e;
    if (e.stamp >= t && !b) b = &e;
  }
  if (!a) throw tf2::ExtrapolationException("Lookup would require extrapolation into the past for " + child);
  if (!b) throw tf2::ExtrapolationException("Lookup would require extrapolation into the future for " + child);
  if (a == b || a->stamp == b->stamp) return tf2::Transform(a->q, a->t);
  const double r = (t - a->stamp).toSec() / (b->stamp - a->stamp).toSec();
  tf2::Vector3 v;
  v.setInterpolate3(a->t, b->t, r);
  return tf2::Transform(a->q.slerp(b->q, r), v);
}
inline std::vector<std::string> tfChain(const std::string& f)
{
  std::vector<std::string> c(1, f);
  while (tf().links.count(c.back()) && c.size() < 100) c.push_back(tf().links[c.back()].parent);
  return c;
}
inline geometry_msgs::TransformStamped tfLookup(const std::string& target0, const std::string& source0, ros::Time t)
{
  if (target0.empty() || source0.empty()) throw tf2::InvalidArgumentException("Invalid argument passed to lookupTransform: frame_ids cannot be empty");
  const std::string target = tfName(target0), source = tfName(source0);
  geometry_msgs::TransformStamped o;
  o.header.frame_id = target;
  o.child_frame_id = source;
  if (!tf().frames.count(target)) throw tf2::LookupException("\"" + target + "\" passed to lookupTransform argument target_frame does not exist.");
  if (!tf().frames.count(source)) throw tf2::LookupException("\"" + source + "\" passed to lookupTransform argument source_frame does not exist.");
  const auto cs = tfChain(source), ct = tfChain(target);
  size_t i = 0, j = 0;
  bool found = false;
  for (i = 0; i < cs.size() && !found; i++)
    for (j = 0; j < ct.size(); j++)
      if (cs[i] == ct[j]) { found = true; break; }
  if (!found) throw tf2::ConnectivityException("Could not find a connection between '" + target + "' and '" + source + "'");
  i--;
  if (t.isZero())
  {
    bool any = false;
    auto upd = [&](const std::string& f)
    {
      const TfLink& l = tf().links[f];
      if (l.is_static || l.h.empty()) return;
      if (!any || l.h.back().stamp < t) t = l.h.back().stamp;
      any = true;
    };
    for (size_t k = 0; k < i; k++) upd(cs[k]);
    for (size_t k = 0; k < j; k++) upd(ct[k]);
    if (!any) t = ros::Time();
  }
  tf2::Transform a = tf2::Transform::getIdentity(), b = tf2::Transform::getIdentity();
  for (size_t k = 0; k < i; k++) a = tfAt(cs[k], tf().links[cs[k]], t) * a;
  for (size_t k = 0; k < j; k++) b = tfAt(ct[k], tf().links[ct[k]], t) * b;
  const tf2::Transform r = b.inverse() * a;
  const tf2::Quaternion q = r.getRotation();
  o.header.stamp = t;
  o.transform.translation.x = r.getOrigin().x(); o.transform.translation.y = r.getOrigin().y(); o.transform.translation.z = r.getOrigin().z();
  o.transform.rotation.x = q.x(); o.transform.rotation.y = q.y(); o.transform.rotation.z = q.z(); o.transform.rotation.w = q.w();
  return o;
}
}  // namespace sim
namespace tf2_ros
{
class Buffer
{
public:
  explicit Buffer(ros::Duration = ros::Duration(10), bool = false) {}
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout = ros::Duration(0), std::string* err = nullptr) const
  {
    const ros::Time end = ros::Time::now() + timeout;
    while (true)
    {
      try { sim::tf().lookups++; sim::tfLookup(target, source, t); return true; }
      catch (const tf2::TransformException& e) { if (err) *err = e.what(); }
      if (!(ros::Time::now() < end) || !ros::ok()) return false;
      sim::advanceTo(std::min(end, ros::Time::now() + ros::Duration(0.01)));
    }
  }
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout = ros::Duration(0)) const
  {
    canTransform(target, source, t, timeout);
    return sim::tfLookup(target, source, t);
  }
  template <class T> T& transform(const T& in, T& out, const std::string& frame, ros::Duration timeout = ros::Duration(0)) const;
  template <class T> T transform(const T& in, const std::string& frame, ros::Duration timeout = ros::Duration(0)) const { T out; return transform(in, out, frame, timeout); }
  bool setTransform(const geometry_msgs::TransformStamped& m, const std::string&, bool is_static = false) { sim::setTf(m, is_static); return true; }
  void clear() {}
  void setUsingDedicatedThread(bool) {}
};
}
