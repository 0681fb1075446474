// Stand-in for dynamic_reconfigure: configuration from defaults and private parameters, changes by sim::reconfigure().
#pragma once
#include <ros/ros.h>
#include <boost/thread/recursive_mutex.hpp>
namespace sim
{
inline std::map<std::string, std::function<void(const XmlRpc::XmlRpcValue&)>>& reconfigurers() { static std::map<std::string, std::function<void(const XmlRpc::XmlRpcValue&)>> m; return m; }
inline void reconfigure(const std::string& ns, const XmlRpc::XmlRpcValue& v) { auto it = reconfigurers().find(ns); if (it != reconfigurers().end()) it->second(v); }
inline void reconfigureAll(const XmlRpc::XmlRpcValue& v) { for (auto& r : reconfigurers()) r.second(v); }
}
namespace dynamic_reconfigure
{
template <class C>
class Server
{
  ros::NodeHandle nh_;
  boost::recursive_mutex own_;
  boost::recursive_mutex& mutex_;
  C config_;
  std::function<void(C&, uint32_t)> cb_;
  static double num(XmlRpc::XmlRpcValue v)
  {
    if (v.getType() == XmlRpc::XmlRpcValue::TypeInt) return static_cast<int>(v);
    if (v.getType() == XmlRpc::XmlRpcValue::TypeBoolean) return static_cast<bool>(v);
    return static_cast<double>(v);
  }
  static void set(double& o, XmlRpc::XmlRpcValue v, double lo, double hi) { o = std::min(std::max(num(v), lo), hi); }
  static void set(int& o, XmlRpc::XmlRpcValue v, int lo, int hi) { o = std::min(std::max(static_cast<int>(num(v)), lo), hi); }
  static void set(bool& o, XmlRpc::XmlRpcValue v, bool, bool) { o = num(v) != 0; }
  static void set(std::string& o, XmlRpc::XmlRpcValue v, const std::string&, const std::string&) { o = static_cast<std::string>(v); }
  struct FromParams
  {
    ros::NodeHandle& nh;
    template <class T> void operator()(const char* n, T& v, T lo, T hi, uint32_t) { XmlRpc::XmlRpcValue x; if (nh.getParam(n, x)) set(v, x, lo, hi); }
  };
  struct FromValue
  {
    XmlRpc::XmlRpcValue x;
    uint32_t level = 0;
    template <class T> void operator()(const char* n, T& v, T lo, T hi, uint32_t l) { if (!x.hasMember(n)) return; T o = v; set(v, x[n], lo, hi); if (!(o == v)) level |= l; }
  };
  void init()
  {
    config_.visit(FromParams{ nh_ });
    sim::reconfigurers()[nh_.getNamespace()] = [this](const XmlRpc::XmlRpcValue& v)
    {
      boost::recursive_mutex::scoped_lock lock(mutex_);
      C c = config_;
      FromValue f;
      f.x = v;
      c.visit(f);
      config_ = c;
      if (cb_) cb_(config_, f.level);
    };
  }
public:
  typedef std::function<void(C&, uint32_t)> CallbackType;
  Server() : nh_("~"), mutex_(own_) { init(); }
  explicit Server(const ros::NodeHandle& nh) : nh_(nh), mutex_(own_) { init(); }
  explicit Server(boost::recursive_mutex& m, const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh), mutex_(m) { init(); }
  ~Server() { sim::reconfigurers().erase(nh_.getNamespace()); }
  template <class F> void setCallback(const F& f) { cb_ = [f](C& c, uint32_t l) { f(c, l); }; boost::recursive_mutex::scoped_lock lock(mutex_); cb_(config_, ~0u); }
  void clearCallback() { cb_ = nullptr; }
  void updateConfig(const C& c) { config_ = c; }
  void getConfigDefault(C& c) { c = C(); }
  C getConfig() const { return config_; }
};
}  // namespace dynamic_reconfigure
