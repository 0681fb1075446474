// Deterministic, single-threaded stand-in for roscpp: simulated clock, in-process topics, timers, services, parameters.
// A driver supplies a script; ros::spin()/spinOnce()/Rate::sleep()/blocking tf lookups advance the script and the clock.
#pragma once
#define SIM_ROS 1
#ifndef BOOST_BIND_GLOBAL_PLACEHOLDERS
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#endif
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <typeindex>
#include <type_traits>
#include <vector>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/shared_array.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread.hpp>
#include <ros/time.h>
#include <ros/console.h>
#include <ros/msg_base.h>
#include <xmlrpcpp/XmlRpcValue.h>

namespace sim
{
struct Holder
{
  boost::shared_ptr<void> p;
  std::type_index t;
  const char* type;
  Holder() : t(typeid(void)), type("") {}
  template <class M> explicit Holder(const boost::shared_ptr<M>& m) : p(boost::const_pointer_cast<typename std::remove_const<M>::type>(m)), t(typeid(typename std::remove_const<M>::type)), type(M::rosDataType()) {}
};
struct SubImpl
{
  std::string topic;
  uint32_t qs;
  std::function<void(const Holder&)> cb;
  std::type_index t;
  bool any = false, active = true;
  std::deque<Holder> q;
  SubImpl() : t(typeid(void)) {}
};
struct TimerImpl
{
  int id = 0;
  ros::Duration period;
  boost::function<void(const void*)> cb;
  std::function<void(ros::Time last_exp, ros::Time last_real, ros::Time exp, ros::Time real)> fn;
  bool oneshot = false, started = false, alive = true;
  ros::Time next, last_expected, last_real;
};
struct World
{
  std::string node_ns;  // namespace the node runs in: empty or /name
  ros::Time now = ros::Time(1000, 0);
  bool ok = true, inited = false, sim_time = true;
  std::string node = "/node";
  XmlRpc::XmlRpcValue params;
  std::vector<boost::shared_ptr<SubImpl>> subs;
  std::map<std::string, int> num_subs;
  int default_num_subs = 1;
  std::set<std::string> advertised, services_adv, advertised_any;
  std::map<std::string, std::function<bool(void*, void*)>> services;
  std::map<std::string, std::vector<std::function<void(const Holder&)>>> sinks;
  std::vector<std::function<void(const std::string&, const Holder&)>> any_sinks;
  std::map<std::string, std::vector<std::function<void(const Holder&)>>> deliver_hooks;
  std::map<std::string, Holder> latched;
  std::vector<boost::shared_ptr<TimerImpl>> timers;
  std::deque<std::function<void()>> queue;
  std::function<void(int)> timer_hook, timer_end_hook;
  std::function<void(const std::string&)> deliver_end_hook;
  std::function<void()> spin_once_hook;
  std::function<void()> spin_start_hook;   // the node has finished its start-up
  // script
  std::vector<std::string> lines;
  size_t pos = 0;
  bool waiting = false;
  ros::Time wait_until;
  std::function<void(const std::string&)> exec;
  std::map<std::string, std::string> param_reads;
};
inline World& W() { static World* w = new World; return *w; }

// ---- publishing into the world
template <class M>
void inject(const std::string& topic, const boost::shared_ptr<M>& m);
inline void enqueue(const boost::shared_ptr<SubImpl>& s, const Holder& h)
{
  if (!s->any && s->t != h.t) return;
  s->q.push_back(h);
  boost::weak_ptr<SubImpl> w(s);
  if (s->qs > 0 && s->q.size() > s->qs) { s->q.pop_front(); return; }  // oldest dropped; its queue entry serves the next
  W().queue.push_back([w]()
  {
    boost::shared_ptr<SubImpl> s = w.lock();
    if (!s || s->q.empty()) return;
    Holder h = s->q.front();
    s->q.pop_front();
    if (!s->active) return;
    auto hk = W().deliver_hooks.find(s->topic);
    if (hk != W().deliver_hooks.end()) for (auto& f : hk->second) f(h);
    s->cb(h);
    if (W().deliver_end_hook) W().deliver_end_hook(s->topic);
  });
}
inline void deliverTopic(const std::string& topic, const Holder& h)
{
  auto subs = W().subs;
  for (auto& s : subs) if (s->active && s->topic == topic) enqueue(s, h);
}
template <class M>
void inject(const std::string& topic, const M& m) { deliverTopic(topic, Holder(boost::make_shared<M>(m))); }
template <class M>
void sink(const std::string& topic, std::function<void(const M&)> f)
{
  W().sinks[topic].push_back([f](const Holder& h) { if (h.t == typeid(M)) f(*static_cast<const M*>(h.p.get())); });
}
template <class M>
void onDeliver(const std::string& topic, std::function<void(const M&)> f)
{
  W().deliver_hooks[topic].push_back([f](const Holder& h) { if (h.t == typeid(M)) f(*static_cast<const M*>(h.p.get())); });
}
inline void post(std::function<void()> f) { W().queue.push_back(f); }
template <class Req, class Res>
bool call(const std::string& name, Req& req, Res& res)
{
  auto it = W().services.find(name);
  if (it == W().services.end()) return false;
  return it->second(&req, &res);
}
// ---- time
inline void drain()
{
  while (W().ok && !W().queue.empty())
  {
    auto f = W().queue.front();
    W().queue.pop_front();
    f();
  }
}
inline void setWait(double s) { W().waiting = true; W().wait_until = W().now + ros::Duration(s); }
inline bool stepScript()  // executes one script line, or reports that there is none
{
  if (W().pos >= W().lines.size()) return false;
  std::string l = W().lines[W().pos++];
  if (l.compare(0, 5, "wait ") == 0) setWait(atof(l.c_str() + 5));
  else W().exec(l);
  return true;
}
// Lets the clock reach t, executing the script on the way; callbacks are only queued.
inline void advanceTo(const ros::Time& t)
{
  while (W().ok)
  {
    if (W().waiting)
    {
      if (W().wait_until <= t) { if (W().wait_until > W().now) W().now = W().wait_until; W().waiting = false; }
      else break;
    }
    else if (!stepScript()) { W().ok = false; break; }
  }
  if (W().now < t) W().now = t;
}
inline void fireTimer(const boost::shared_ptr<TimerImpl>& t)
{
  ros::Time exp = t->next, real = W().now;
  ros::Time le = t->last_expected, lr = t->last_real;
  t->last_expected = exp; t->last_real = real;
  if (t->oneshot) t->next = ros::Time(2147483647, 0);   // as roscpp: still "started", revived by setPeriod(p, true)
  else
  {
    t->next = exp + t->period;
    if (t->next + t->period < real) t->next = real;
  }
  if (W().timer_hook) W().timer_hook(t->id);
  t->fn(le, lr, exp, real);
  if (W().timer_end_hook) W().timer_end_hook(t->id);
}
inline boost::shared_ptr<TimerImpl> dueTimer(ros::Time limit, const std::set<int>& skip = std::set<int>())
{
  boost::shared_ptr<TimerImpl> best;
  for (auto& t : W().timers)
    if (t->alive && t->started && !skip.count(t->id) && t->next <= limit && (!best || t->next < best->next)) best = t;
  return best;
}
inline void cleanup()
{
  auto& v = W().timers;
  v.erase(std::remove_if(v.begin(), v.end(), [](const boost::shared_ptr<TimerImpl>& t) { return !t->alive; }), v.end());
  auto& s = W().subs;
  s.erase(std::remove_if(s.begin(), s.end(), [](const boost::shared_ptr<SubImpl>& t) { return !t->active; }), s.end());
}
inline std::string resolveIn(const std::string& ns, const std::string& name)
{
  if (name.empty()) return ns.empty() ? "/" : ns;
  std::string n = name;
  if (n[0] == '/') { }
  else if (n[0] == '~') n = W().node + "/" + n.substr(1);
  else n = ns + "/" + n;
  std::string o;
  for (char c : n) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c;
  while (o.size() > 1 && o.back() == '/') o.pop_back();
  if (o[0] != '/') o = "/" + o;
  return o;
}
inline std::vector<std::string> split(const std::string& k)
{
  std::vector<std::string> r;
  std::string c;
  for (char ch : k) { if (ch == '/') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) r.push_back(c);
  return r;
}
inline void setParam(const std::string& key, const XmlRpc::XmlRpcValue& v)
{
  XmlRpc::XmlRpcValue* p = &W().params;
  for (auto& s : split(key)) p = &(*p)[s];
  *p = v;
}
inline const XmlRpc::XmlRpcValue* findParam(const std::string& key)
{
  const XmlRpc::XmlRpcValue* p = &W().params;
  for (auto& s : split(key)) { if (!p->hasMember(s)) return nullptr; p = &(*p)[s]; }
  return p;
}
// minimal JSON -> XmlRpcValue
struct Json
{
  const char* s;
  explicit Json(const char* p) : s(p) {}
  void ws() { while (*s == ' ' || *s == '\t' || *s == '\n') s++; }
  XmlRpc::XmlRpcValue parse()
  {
    ws();
    XmlRpc::XmlRpcValue v;
    if (*s == '{')
    {
      s++; v.begin();
      for (ws(); *s != '}'; ws()) { if (*s == ',') { s++; ws(); } std::string k = str(); ws(); assert(*s == ':'); s++; v[k] = parse(); }
      s++;
    }
    else if (*s == '[')
    {
      s++; v.setSize(0);
      int n = 0;
      for (ws(); *s != ']'; ws()) { if (*s == ',') s++; XmlRpc::XmlRpcValue e = parse(); v[n++] = e; }
      s++;
    }
    else if (*s == '"') v = XmlRpc::XmlRpcValue(str());
    else if (!strncmp(s, "true", 4)) { v = XmlRpc::XmlRpcValue(true); s += 4; }
    else if (!strncmp(s, "false", 5)) { v = XmlRpc::XmlRpcValue(false); s += 5; }
    else
    {
      const char* b = s;
      bool dbl = false;
      while (*s && strchr("+-0123456789.eEnaifN", *s)) { if (strchr(".eEnaifN", *s)) dbl = true; s++; }
      assert(s != b);
      std::string t(b, s);
      v = dbl ? XmlRpc::XmlRpcValue(atof(t.c_str())) : XmlRpc::XmlRpcValue(atoi(t.c_str()));
    }
    return v;
  }
  std::string str()
  {
    assert(*s == '"'); s++;
    std::string o;
    while (*s != '"') { if (*s == '\\') s++; o += *s++; }
    s++;
    return o;
  }
};
inline XmlRpc::XmlRpcValue json(const std::string& t) { return Json(t.c_str()).parse(); }
}  // namespace sim

namespace ros
{
inline Time Time::now() { return sim::W().now; }
inline bool Time::isSimTime() { return sim::W().sim_time; }
inline bool Time::isSystemTime() { return !sim::W().sim_time; }
inline bool Time::sleepUntil(const Time& t) { sim::advanceTo(t); return true; }
inline bool Duration::sleep() const { if (sec >= 0) sim::advanceTo(sim::W().now + *this); return true; }
inline Rate::Rate(double hz) : start_(Time::now()), cycle_(1.0 / hz), actual_() {}
inline Rate::Rate(const Duration& d) : start_(Time::now()), cycle_(d), actual_() {}
inline void Rate::reset() { start_ = Time::now(); }
inline bool Rate::sleep()
{
  Time expected_end = start_ + cycle_;
  Time actual_end = Time::now();
  Duration sleep_time = expected_end - actual_end;
  actual_ = actual_end - start_;
  start_ = expected_end;
  if (sleep_time <= Duration(0, 0))
  {
    if (actual_end > expected_end + cycle_) start_ = actual_end;
    // a loop that never catches up must still let the script make progress
    sim::advanceTo(sim::W().now);
    return true;
  }
  sim::advanceTo(expected_end);
  return true;
}
typedef boost::shared_ptr<void const> VoidConstPtr;
typedef boost::shared_ptr<void> VoidPtr;
typedef std::map<std::string, std::string> M_string;
namespace init_options { enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
inline void init(int&, char**, const std::string& name, uint32_t = 0) { if (!sim::W().inited) { sim::W().node = sim::W().node_ns + "/" + name; sim::W().inited = true; } }
inline bool ok() { return sim::W().ok; }
inline bool isInitialized() { return true; }
inline bool isStarted() { return true; }
inline bool isShuttingDown() { return !sim::W().ok; }
inline void shutdown() { sim::W().ok = false; }
inline void requestShutdown() { sim::W().ok = false; }
inline void start() {}
inline void waitForShutdown() {}
inline void spinOnce()
{
  if (sim::W().spin_once_hook) sim::W().spin_once_hook();
  // everything queued so far, plus one firing of every timer that is due, in that order
  size_t n = sim::W().queue.size();
  std::set<int> done;
  while (n-- && sim::W().ok && !sim::W().queue.empty())
  {
    auto f = sim::W().queue.front();
    sim::W().queue.pop_front();
    f();
  }
  while (sim::W().ok)
  {
    auto t = sim::dueTimer(sim::W().now, done);
    if (!t) break;
    done.insert(t->id);
    sim::fireTimer(t);
  }
  sim::cleanup();
}
inline void spin()
{
  sim::World& w = sim::W();
  if (w.spin_start_hook) w.spin_start_hook();
  while (w.ok)
  {
    sim::drain();
    sim::cleanup();
    if (!w.ok) break;
    auto t = sim::dueTimer(w.waiting ? w.wait_until : w.now);
    if (t)
    {
      if (t->next > w.now) w.now = t->next;
      sim::fireTimer(t);
      continue;
    }
    if (w.waiting) { if (w.wait_until > w.now) w.now = w.wait_until; w.waiting = false; continue; }
    if (!sim::stepScript()) w.ok = false;
  }
}
class AsyncSpinner
{
public:
  explicit AsyncSpinner(uint32_t) {}
  void start() {}
  void stop() {}
};
namespace this_node
{
inline const std::string& getName() { return sim::W().node; }
inline const std::string& getNamespace() { static std::string s = "/"; return s; }
}
namespace names
{
inline std::string resolve(const std::string& n, bool = true) { return sim::resolveIn("/", n); }
inline std::string append(const std::string& l, const std::string& r) { return l + "/" + r; }
}
class TransportHints
{
public:
  TransportHints& reliable() { return *this; }
  TransportHints& unreliable() { return *this; }
  TransportHints& tcp() { return *this; }
  TransportHints& udp() { return *this; }
  TransportHints& tcpNoDelay(bool = true) { return *this; }
};
class Subscriber
{
public:
  Subscriber() {}
  explicit Subscriber(const boost::shared_ptr<sim::SubImpl>& i) : i_(new Guard(i)) {}
  void shutdown() { if (i_) i_->s->active = false; i_.reset(); }
  std::string getTopic() const { return i_ ? i_->s->topic : ""; }
  uint32_t getNumPublishers() const { return i_ ? 1 : 0; }
  operator void*() const { return i_ ? (void*)1 : (void*)0; }
private:
  struct Guard { boost::shared_ptr<sim::SubImpl> s; explicit Guard(const boost::shared_ptr<sim::SubImpl>& i) : s(i) {} ~Guard() { s->active = false; } };
  boost::shared_ptr<Guard> i_;
};
class Publisher
{
public:
  Publisher() {}
  Publisher(const std::string& t, bool latch, std::type_index ti) : impl_(boost::make_shared<Impl>(t, latch, ti)) {}
  template <class M> void publish(const M& m) const { emit(sim::Holder(boost::make_shared<M>(m))); }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { emit(sim::Holder(boost::make_shared<typename std::remove_const<M>::type>(*m))); }
  uint32_t getNumSubscribers() const
  {
    if (!impl_) return 0;
    auto it = sim::W().num_subs.find(impl_->topic);
    return it == sim::W().num_subs.end() ? sim::W().default_num_subs : it->second;
  }
  std::string getTopic() const { return impl_ ? impl_->topic : ""; }
  bool isLatched() const { return impl_ && impl_->latch; }
  void shutdown() { impl_.reset(); }
  operator void*() const { return impl_ ? (void*)1 : (void*)0; }
  void emit(const sim::Holder& h) const
  {
    if (!impl_) { fprintf(stderr, "publish() on an unadvertised publisher\n"); abort(); }
    if (impl_->t != typeid(void) && impl_->t != h.t) { fprintf(stderr, "publish() of the wrong type on %s\n", impl_->topic.c_str()); abort(); }
    if (impl_->latch) sim::W().latched[impl_->topic] = h;
    auto it = sim::W().sinks.find(impl_->topic);
    if (it != sim::W().sinks.end()) for (auto& f : it->second) f(h);
    for (auto& f : sim::W().any_sinks) f(impl_->topic, h);
    sim::deliverTopic(impl_->topic, h);
  }
private:
  struct Impl { std::string topic; bool latch; std::type_index t; Impl(const std::string& a, bool b, std::type_index c) : topic(a), latch(b), t(c) {} };
  boost::shared_ptr<Impl> impl_;
};
class ServiceServer
{
public:
  ServiceServer() {}
  explicit ServiceServer(const std::string& n) : g_(new Guard{n}) {}
  void shutdown() { g_.reset(); }
  std::string getService() const { return g_ ? g_->n : ""; }
  operator void*() const { return g_ ? (void*)1 : (void*)0; }
private:
  struct Guard { std::string n; ~Guard() { sim::W().services.erase(n); } };
  boost::shared_ptr<Guard> g_;
};
class ServiceClient
{
public:
  ServiceClient() {}
  explicit ServiceClient(const std::string& n) : n_(n) {}
  template <class S> bool call(S& s) { return sim::call(n_, s.request, s.response); }
  bool exists() const { return sim::W().services.count(n_); }
  bool waitForExistence(Duration = Duration(-1)) { return exists(); }
private:
  std::string n_;
};
struct TimerEvent
{
  Time last_expected, last_real, current_expected, current_real;
  struct { WallDuration last_duration; } profile;
};
typedef TimerEvent WallTimerEvent;
typedef boost::function<void(const TimerEvent&)> TimerCallback;
class Timer
{
public:
  Timer() {}
  explicit Timer(const boost::shared_ptr<sim::TimerImpl>& i) : i_(new Guard(i)) {}
  void start() { if (i_ && !i_->t->started) { i_->t->started = true; i_->t->next = Time::now() + i_->t->period; i_->t->last_expected = i_->t->last_real = Time(); } }
  void stop() { if (i_) i_->t->started = false; }
  void setPeriod(const Duration& p, bool reset = true)
  {
    if (!i_) return;
    sim::TimerImpl& t = *i_->t;
    if (t.started)
    {
      if (reset) t.next = Time::now() + p;
      else
      {
        Time last = t.next - t.period;
        if (p < t.period && last + p < Time::now()) t.next = Time::now();
        else if (p < t.period || true) t.next = last + p;
      }
    }
    t.period = p;
  }
  bool hasPending() { return i_ && i_->t->started && i_->t->next <= Time::now(); }
  bool hasStarted() const { return i_ && i_->t->started; }
  bool isValid() { return !!i_; }
  operator void*() { return i_ ? (void*)1 : (void*)0; }
private:
  struct Guard { boost::shared_ptr<sim::TimerImpl> t; explicit Guard(const boost::shared_ptr<sim::TimerImpl>& i) : t(i) {} ~Guard() { t->alive = false; } };
  boost::shared_ptr<Guard> i_;
};
typedef Timer WallTimer;
typedef Timer SteadyTimer;
template <class M> class MessageEvent
{
public:
  typedef typename std::remove_const<M>::type Msg;
  MessageEvent() {}
  explicit MessageEvent(const boost::shared_ptr<Msg>& m) : m_(m), t_(Time::now()) {}
  boost::shared_ptr<M> getMessage() const { return m_; }
  boost::shared_ptr<Msg const> getConstMessage() const { return m_; }
  Time getReceiptTime() const { return t_; }
  const std::string& getPublisherName() const { static std::string s = "/sim"; return s; }
private:
  boost::shared_ptr<Msg> m_;
  Time t_;
};
}  // namespace ros
namespace topic_tools { class ShapeShifter; }
namespace sim
{
// how a callback parameter type receives a message
template <class P> struct Arg  // const M& / M
{
  typedef typename std::remove_const<typename std::remove_reference<P>::type>::type M;
  static const M& get(const Holder& h) { return *static_cast<const M*>(h.p.get()); }
};
template <class M> struct ArgPtr
{
  static boost::shared_ptr<M> get(const Holder& h) { return boost::static_pointer_cast<M>(h.p); }
};
template <class T> struct ArgShared : Arg<T> {};
template <class X> struct ArgShared<boost::shared_ptr<X>>
{
  typedef typename std::remove_const<X>::type M;
  static boost::shared_ptr<X> get(const Holder& h)
  {
    // non-const pointers receive a private copy, as in roscpp when the message is shared
    if (!std::is_const<X>::value) return boost::make_shared<M>(*static_cast<const M*>(h.p.get()));
    return boost::static_pointer_cast<M>(h.p);
  }
};
template <class X> struct ArgShared<ros::MessageEvent<X>>
{
  typedef typename std::remove_const<X>::type M;
  static ros::MessageEvent<X> get(const Holder& h) { return ros::MessageEvent<X>(boost::static_pointer_cast<M>(h.p)); }
};
template <class P> struct ArgOf : ArgShared<typename std::remove_const<typename std::remove_reference<P>::type>::type> {};
template <class M> struct IsAny { enum { value = 0 }; };
template <> struct IsAny<topic_tools::ShapeShifter> { enum { value = 1 }; };
template <class M> boost::shared_ptr<topic_tools::ShapeShifter> wrapAny(const Holder& h);
}  // namespace sim
#include <topic_tools/shape_shifter_impl.h>
namespace ros
{
class NodeHandle
{
public:
  NodeHandle(const std::string& ns = std::string(), const M_string& = M_string())
  {
    unresolved_ = (!ns.empty() && ns[0] == '~') ? sim::resolveIn("/", ns) : ns;
    ns_ = sim::resolveIn(sim::W().node_ns, unresolved_);
  }
  NodeHandle(const NodeHandle& p, const std::string& ns)
  {
    unresolved_ = ns;
    ns_ = sim::resolveIn(p.ns_, ns);
  }
  const std::string& getNamespace() const { return ns_; }
  const std::string& getUnresolvedNamespace() const { return unresolved_; }
  std::string resolveName(const std::string& n, bool = true) const { return sim::resolveIn(ns_, n); }
  bool ok() const { return ros::ok(); }
  void shutdown() {}
  // ---- parameters
  bool hasParam(const std::string& k) const { return sim::findParam(resolveName(k)) != nullptr; }
  bool getParam(const std::string& k, XmlRpc::XmlRpcValue& v) const { auto p = sim::findParam(resolveName(k)); if (!p) return false; v = *p; return true; }
  bool getParam(const std::string& k, std::string& v) const { return get(k, [&](const XmlRpc::XmlRpcValue& p) { if (p.getType() != p.TypeString) return false; v = (const std::string&)p; return true; }); }
  bool getParam(const std::string& k, bool& v) const { return get(k, [&](const XmlRpc::XmlRpcValue& p) { if (p.getType() != p.TypeBoolean) return false; v = (const bool&)p; return true; }); }
  bool getParam(const std::string& k, int& v) const
  {
    return get(k, [&](const XmlRpc::XmlRpcValue& p)
    {
      if (p.getType() == p.TypeInt) { v = (const int&)p; return true; }
      if (p.getType() != p.TypeDouble) return false;
      double d = (const double&)p;
      d = std::fmod(d, 1.0) < 0.5 ? std::floor(d) : std::ceil(d);
      v = (int)d;
      return true;
    });
  }
  bool getParam(const std::string& k, double& v) const
  {
    return get(k, [&](const XmlRpc::XmlRpcValue& p)
    {
      if (p.getType() == p.TypeInt) { v = (const int&)p; return true; }
      if (p.getType() == p.TypeDouble) { v = (const double&)p; return true; }
      return false;
    });
  }
  bool getParam(const std::string& k, float& v) const { double d; if (!getParam(k, d)) return false; v = d; return true; }
  template <class T> bool getParam(const std::string& k, std::vector<T>& v) const
  {
    auto p = sim::findParam(resolveName(k));
    if (!p || p->getType() != p->TypeArray) return false;
    std::vector<T> o;
    for (int i = 0; i < p->size(); i++) { T t; if (!conv((*p)[i], t)) return false; o.push_back(t); }
    v = o;
    return true;
  }
  template <class T> bool param(const std::string& k, T& v, const T& def) const
  {
    if (hasParam(k)) { if (getParam(k, v)) return true; }
    v = def;
    return false;
  }
  template <class T> T param(const std::string& k, const T& def) const { T v; param(k, v, def); return v; }
  template <class T> void setParam(const std::string& k, const T& v) const { sim::setParam(resolveName(k), XmlRpc::XmlRpcValue(v)); }
  bool deleteParam(const std::string&) const { return true; }
  bool searchParam(const std::string& k, std::string& r) const { if (hasParam(k)) { r = resolveName(k); return true; } return false; }
  // ---- topics
  template <class M> Publisher advertise(const std::string& t, uint32_t, bool latch = false)
  {
    std::string n = resolveName(t);
    sim::W().advertised.insert(n);
    return Publisher(n, latch, typeid(M));
  }
  Publisher advertiseAny(const std::string& t, uint32_t, bool latch)
  {
    std::string n = resolveName(t);
    sim::W().advertised.insert(n);
    sim::W().advertised_any.insert(n);
    return Publisher(n, latch, typeid(void));
  }
  template <class P> Subscriber subRaw(const std::string& t, uint32_t q, std::function<void(const sim::Holder&)> f)
  {
    typedef typename sim::ArgOf<P>::M M;
    auto i = boost::make_shared<sim::SubImpl>();
    i->topic = resolveName(t);
    i->qs = q;
    i->cb = f;
    i->t = typeid(M);
    i->any = sim::IsAny<M>::value;
    sim::W().subs.push_back(i);
    return Subscriber(i);
  }
  template <class P, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(P), T* o, const TransportHints& = TransportHints())
  {
    return subRaw<P>(t, q, [fp, o](const sim::Holder& h) { (o->*fp)(sim::ArgOf<P>::get(h)); });
  }
  template <class P, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(P) const, T* o, const TransportHints& = TransportHints())
  {
    return subRaw<P>(t, q, [fp, o](const sim::Holder& h) { (o->*fp)(sim::ArgOf<P>::get(h)); });
  }
  template <class P, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(P), const boost::shared_ptr<T>& o, const TransportHints& = TransportHints())
  {
    return subRaw<P>(t, q, [fp, o](const sim::Holder& h) { (o.get()->*fp)(sim::ArgOf<P>::get(h)); });
  }
  template <class M, class T> Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const boost::shared_ptr<M const>&), T* o, const TransportHints& = TransportHints())
  {
    return subRaw<const boost::shared_ptr<M const>&>(t, q, [fp, o](const sim::Holder& h) { (o->*fp)(sim::ArgOf<const boost::shared_ptr<M const>&>::get(h)); });
  }
  template <class P> Subscriber subscribe(const std::string& t, uint32_t q, void (*fp)(P), const TransportHints& = TransportHints())
  {
    return subRaw<P>(t, q, [fp](const sim::Holder& h) { fp(sim::ArgOf<P>::get(h)); });
  }
  template <class M> Subscriber subscribe(const std::string& t, uint32_t q, const boost::function<void(const boost::shared_ptr<M const>&)>& f,
                                          const VoidConstPtr& = VoidConstPtr(), const TransportHints& = TransportHints())
  {
    return subRaw<const boost::shared_ptr<M const>&>(t, q, [f](const sim::Holder& h) { f(sim::ArgOf<const boost::shared_ptr<M const>&>::get(h)); });
  }
  template <class M, class C> Subscriber subscribe(const std::string& t, uint32_t q, const boost::function<void(C)>& f,
                                                   const VoidConstPtr& = VoidConstPtr(), const TransportHints& = TransportHints())
  {
    return subRaw<C>(t, q, [f](const sim::Holder& h) { f(sim::ArgOf<C>::get(h)); });
  }
  // ---- services
  template <class T, class Q, class R> ServiceServer advertiseService(const std::string& s, bool (T::*fp)(Q&, R&), T* o)
  {
    std::string n = resolveName(s);
    sim::W().services_adv.insert(n);
    sim::W().services[n] = [fp, o](void* q, void* r) { return (o->*fp)(*static_cast<Q*>(q), *static_cast<R*>(r)); };
    return ServiceServer(n);
  }
  template <class Q, class R> ServiceServer advertiseService(const std::string& s, const boost::function<bool(Q&, R&)>& f, const VoidConstPtr& = VoidConstPtr())
  {
    std::string n = resolveName(s);
    sim::W().services_adv.insert(n);
    sim::W().services[n] = [f](void* q, void* r) { return f(*static_cast<Q*>(q), *static_cast<R*>(r)); };
    return ServiceServer(n);
  }
  template <class S> ServiceClient serviceClient(const std::string& s, bool = false, const M_string& = M_string()) { return ServiceClient(resolveName(s)); }
  // ---- timers
  Timer createTimer(Duration p, const TimerCallback& cb, bool oneshot = false, bool autostart = true) const
  {
    static int next_id = 0;
    auto t = boost::make_shared<sim::TimerImpl>();
    t->id = next_id++;
    t->period = p;
    t->oneshot = oneshot;
    t->fn = [cb](Time le, Time lr, Time e, Time r)
    {
      TimerEvent ev;
      ev.last_expected = le; ev.last_real = lr; ev.current_expected = e; ev.current_real = r;
      cb(ev);
    };
    sim::W().timers.push_back(t);
    Timer h(t);
    if (autostart) h.start();
    return h;
  }
  Timer createTimer(Rate r, const TimerCallback& cb, bool oneshot = false, bool autostart = true) const { return createTimer(r.expectedCycleTime(), cb, oneshot, autostart); }
  template <class T> Timer createTimer(Duration p, void (T::*fp)(const TimerEvent&), T* o, bool oneshot = false, bool autostart = true) const
  {
    return createTimer(p, TimerCallback([fp, o](const TimerEvent& e) { (o->*fp)(e); }), oneshot, autostart);
  }
  template <class T> Timer createTimer(Duration p, void (T::*fp)(const TimerEvent&) const, T* o, bool oneshot = false, bool autostart = true) const
  {
    return createTimer(p, TimerCallback([fp, o](const TimerEvent& e) { (o->*fp)(e); }), oneshot, autostart);
  }
  template <class T> Timer createTimer(Rate r, void (T::*fp)(const TimerEvent&), T* o, bool oneshot = false, bool autostart = true) const
  {
    return createTimer(r.expectedCycleTime(), fp, o, oneshot, autostart);
  }
  template <class T> Timer createWallTimer(Duration p, void (T::*fp)(const TimerEvent&), T* o, bool oneshot = false, bool autostart = true) const
  {
    return createTimer(p, fp, o, oneshot, autostart);
  }
private:
  template <class F> bool get(const std::string& k, F f) const { auto p = sim::findParam(resolveName(k)); return p && f(*p); }
  static bool conv(const XmlRpc::XmlRpcValue& p, std::string& v) { if (p.getType() != p.TypeString) return false; v = (const std::string&)p; return true; }
  static bool conv(const XmlRpc::XmlRpcValue& p, double& v) { if (p.getType() == p.TypeInt) v = (const int&)p; else if (p.getType() == p.TypeDouble) v = (const double&)p; else return false; return true; }
  static bool conv(const XmlRpc::XmlRpcValue& p, float& v) { double d; if (!conv(p, d)) return false; v = d; return true; }
  static bool conv(const XmlRpc::XmlRpcValue& p, int& v) { if (p.getType() != p.TypeInt) return false; v = (const int&)p; return true; }
  static bool conv(const XmlRpc::XmlRpcValue& p, bool& v) { if (p.getType() != p.TypeBoolean) return false; v = (const bool&)p; return true; }
  std::string ns_, unresolved_;
};
namespace param
{
inline bool has(const std::string& k) { return NodeHandle().hasParam(k); }
template <class T> bool get(const std::string& k, T& v) { return NodeHandle().getParam(k, v); }
template <class T> void set(const std::string& k, const T& v) { NodeHandle().setParam(k, v); }
template <class T> bool param(const std::string& k, T& v, const T& d) { return NodeHandle().param(k, v, d); }
}
namespace service
{
template <class S> bool call(const std::string& n, S& s) { return sim::call(sim::resolveIn("/", n), s.request, s.response); }
inline bool exists(const std::string& n, bool) { return sim::W().services.count(sim::resolveIn("/", n)); }
inline bool waitForService(const std::string& n, Duration = Duration(-1)) { return exists(n, false); }
}
namespace topic
{
template <class M> boost::shared_ptr<M const> waitForMessage(const std::string&, Duration = Duration(0)) { return boost::shared_ptr<M const>(); }
}
// ---- serialization (ROS wire format)
namespace serialization
{
struct OStream
{
  OStream(uint8_t* d, uint32_t n) : d_(d), e_(d + n) {}
  uint8_t* advance(uint32_t n) { if (d_ + n > e_) throw std::runtime_error("Buffer Overrun"); uint8_t* o = d_; d_ += n; return o; }
  uint8_t* getData() { return d_; }
  uint32_t getLength() { return e_ - d_; }
  template <class T> void prim(T& v) { memcpy(advance(sizeof(T)), &v, sizeof(T)); }
  enum { reading = 0 };
  uint8_t *d_, *e_;
};
struct IStream
{
  IStream(const uint8_t* d, uint32_t n) : d_(d), e_(d + n) {}
  const uint8_t* advance(uint32_t n) { if (d_ + n > e_ || n > (uint32_t)(e_ - d_)) throw std::runtime_error("Buffer Overrun"); const uint8_t* o = d_; d_ += n; return o; }
  uint32_t getLength() { return e_ - d_; }
  template <class T> void prim(T& v) { memcpy(&v, advance(sizeof(T)), sizeof(T)); }
  enum { reading = 1 };
  const uint8_t *d_, *e_;
};
struct LStream
{
  uint32_t n = 0;
  template <class T> void prim(T&) { n += sizeof(T); }
  enum { reading = 0 };
};
template <class S> struct Vis
{
  S& s;
  explicit Vis(S& st) : s(st) {}
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type f(const char*, T& v) { s.prim(v); }
  void f(const char*, ros::Time& v) { s.prim(v.sec); s.prim(v.nsec); }
  void f(const char*, ros::Duration& v) { s.prim(v.sec); s.prim(v.nsec); }
  void f(const char* n, std::string& v) { uint32_t k = v.size(); s.prim(k); if (S::reading) { chk(k); v.resize(k); } for (auto& c : v) s.prim(c); }
  template <class T> void f(const char* n, std::vector<T>& v) { uint32_t k = v.size(); s.prim(k); if (S::reading) { chk(k); v.clear(); v.resize(k); } for (auto& c : v) f(n, c); }
  template <class T, size_t N> void f(const char* n, boost::array<T, N>& v) { for (auto& c : v) f(n, c); }
  template <class T> typename std::enable_if<!std::is_arithmetic<T>::value>::type f(const char*, T& v) { v.visit(*this); }
  void chk(uint32_t k) { chk2(s, k); }
  static void chk2(IStream& i, uint32_t k) { if (k > i.getLength()) throw std::runtime_error("Buffer Overrun"); }
  template <class X> static void chk2(X&, uint32_t) {}
};
template <class M> uint32_t serializationLength(const M& m) { LStream l; Vis<LStream> v(l); const_cast<M&>(m).visit(v); return l.n; }
template <class M> void serialize(OStream& s, const M& m) { Vis<OStream> v(s); const_cast<M&>(m).visit(v); }
template <class M> void deserialize(IStream& s, M& m) { Vis<IStream> v(s); m.visit(v); }
}  // namespace serialization
}  // namespace ros
