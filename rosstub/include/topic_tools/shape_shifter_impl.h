#pragma once
namespace ros { class NodeHandle; }
namespace topic_tools
{
class ShapeShifter
{
public:
  typedef boost::shared_ptr<ShapeShifter> Ptr;
  typedef boost::shared_ptr<ShapeShifter const> ConstPtr;
  static const char* rosDataType() { return "*"; }
  std::string getDataType() const { return h.type; }
  std::string getMD5Sum() const { return h.type; }
  template <class NH> ros::Publisher advertise(NH& nh, const std::string& t, uint32_t q, bool latch = false) const { return nh.advertiseAny(t, q, latch); }
  template <class M> boost::shared_ptr<M> instantiate() const { return boost::make_shared<M>(*static_cast<const M*>(h.p.get())); }
  void publish(const ros::Publisher& pub) const { pub.emit(h); }
  sim::Holder h;
};
}  // namespace topic_tools
namespace sim
{
template <> struct ArgShared<boost::shared_ptr<topic_tools::ShapeShifter const>>
{
  typedef topic_tools::ShapeShifter M;
  static boost::shared_ptr<M const> get(const Holder& h) { auto s = boost::make_shared<M>(); s->h = h; return s; }
};
template <> struct ArgShared<boost::shared_ptr<topic_tools::ShapeShifter>>
{
  typedef topic_tools::ShapeShifter M;
  static boost::shared_ptr<M> get(const Holder& h) { auto s = boost::make_shared<M>(); s->h = h; return s; }
};
template <> struct ArgShared<topic_tools::ShapeShifter>
{
  typedef topic_tools::ShapeShifter M;
  static M get(const Holder& h) { M s; s.h = h; return s; }
};
}  // namespace sim
template <> inline void ros::Publisher::publish<topic_tools::ShapeShifter>(const topic_tools::ShapeShifter& m) const { emit(m.h); }
template <> inline void ros::Publisher::publish<topic_tools::ShapeShifter>(const boost::shared_ptr<topic_tools::ShapeShifter>& m) const { emit(m->h); }
template <> inline void ros::Publisher::publish<const topic_tools::ShapeShifter>(const boost::shared_ptr<const topic_tools::ShapeShifter>& m) const { emit(m->h); }
