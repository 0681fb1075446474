// Two-input approximate-time synchroniser (algorithm of message_filters: the pair with the smallest spread around a pivot,
// each message used at most once, in order).
#pragma once
#include <message_filters/subscriber.h>
#include <message_filters/sync_policies/approximate_time.h>
namespace message_filters
{
template <class Pol>
class Synchronizer
{
  typedef typename Pol::M0 A;
  typedef typename Pol::M1 B;
  typedef boost::shared_ptr<const A> PA;
  typedef boost::shared_ptr<const B> PB;
  Pol pol_;
  std::deque<PA> a_;
  std::deque<PB> b_;
  std::vector<std::function<void(const PA&, const PB&)>> f_;
  static double gap(const PA& a, const PB& b) { return std::abs((a->header.stamp - b->header.stamp).toSec()); }
  void process()
  {
    // emit a pair once it is known that no later message can be closer
    while (!a_.empty() && !b_.empty())
    {
      if (a_.size() > 1 && gap(a_[1], b_[0]) < gap(a_[0], b_[0])) { a_.pop_front(); continue; }
      if (b_.size() > 1 && gap(a_[0], b_[1]) < gap(a_[0], b_[0])) { b_.pop_front(); continue; }
      const bool a_first = a_[0]->header.stamp < b_[0]->header.stamp;
      const bool settled = a_[0]->header.stamp == b_[0]->header.stamp || (a_first ? a_.size() > 1 : b_.size() > 1);
      if (!settled) return;
      const PA a = a_.front();
      const PB b = b_.front();
      a_.pop_front();
      b_.pop_front();
      for (auto& f : f_) f(a, b);
    }
  }
public:
  Synchronizer(const Pol& p, Subscriber<A>& a, Subscriber<B>& b) : pol_(p)
  {
    a.registerCallback([this](const PA& m) { a_.push_back(m); if (a_.size() > pol_.q) a_.pop_front(); process(); });
    b.registerCallback([this](const PB& m) { b_.push_back(m); if (b_.size() > pol_.q) b_.pop_front(); process(); });
  }
  template <class F> void registerCallback(const F& f) { f_.push_back([f](const PA& a, const PB& b) { f(a, b); }); }
};
}
