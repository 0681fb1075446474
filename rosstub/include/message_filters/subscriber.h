// Stand-in for message_filters: subscribers feeding an approximate-time synchroniser that pairs stamps within half a window.
#pragma once
#include <ros/ros.h>
namespace message_filters
{
template <class M>
class Subscriber
{
public:
  typedef boost::shared_ptr<const M> P;
  Subscriber() {}
  template <class... R> Subscriber(ros::NodeHandle& nh, const std::string& t, uint32_t q, R...) { subscribe(nh, t, q); }
  template <class... R> void subscribe(ros::NodeHandle& nh, const std::string& t, uint32_t q, R...) { sub_ = nh.subscribe(t, q, &Subscriber::cb, this); }
  void unsubscribe() { sub_.shutdown(); }
  std::string getTopic() const { return sub_.getTopic(); }
  void registerCallback(std::function<void(const P&)> f) { f_.push_back(f); }
private:
  ros::Subscriber sub_;
  std::vector<std::function<void(const P&)>> f_;
  void cb(const P& m) { for (auto& f : f_) f(m); }
};
}
