// C18: the unmodified joystick_mux node driven by scripted joystick and input messages.
#include <ros/ros.h>
#define main node_main
#include NODE_SRC
#undef main
#include <std_msgs/Int32.h>
#include <geometry_msgs/Twist.h>
#include "node.h"
namespace nd
{
static std::string out_topic;
static std::vector<long long> fwd;   // ids of forwarded messages (-1: content differs from what was sent)
static std::map<long long, geometry_msgs::Twist> sent;
static bool cur_twist = false;
static geometry_msgs::Twist mk(long long id)
{
  geometry_msgs::Twist t;
  t.linear.x = id; t.linear.y = id + 0.25; t.linear.z = id * 0.5; t.angular.x = -id; t.angular.y = 7; t.angular.z = id / 3.0;
  return t;
}
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
static void note(const sim::Holder& h)
{
  if (h.t == typeid(geometry_msgs::Twist))
  {
    const auto& m = *static_cast<const geometry_msgs::Twist*>(h.p.get());
    long long id = std::llround(m.linear.x);
    fwd.push_back(sent.count(id) && sent[id] == m ? id : -1);
  }
  else if (h.t == typeid(std_msgs::Int32)) fwd.push_back(static_cast<const std_msgs::Int32*>(h.p.get())->data);
  else fwd.push_back(-2);
}
static void flush(const char* op, long long src, long long id)
{
  vj::Ev(op).i("t", now()).i("src", src).i("id", id).a("fwd", fwd);
  fwd.clear();
}
void onBegin(const Tok& t)
{
  // begin <legacy 0/1> <msgtype 0 int,1 twist>
  bool legacy = i(t[1]);
  cur_twist = i(t[2]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy ? 0 : 1));
  out_topic = legacy ? "/joystick_mux/output" : "/mux_output";
  sim::W().any_sinks.push_back([](const std::string& topic, const sim::Holder& h) { if (topic == out_topic) note(h); else fwd.push_back(-3); });
  XmlRpc::XmlRpcValue v;
  double to = ros::NodeHandle("/joystick_mux").param("timeout", 0.5);
  vj::Ev("begin").i("t", now()).i("timeout", std::llround(to * 1e6)).i("button", ros::NodeHandle("/joystick_mux").param("interrupt_button", 5));
}
void handle(const Tok& t, const std::string&)
{
  bool legacy = out_topic != "/mux_output";
  if (t[0] == "joy")
  {
    sensor_msgs::Joy j;
    std::vector<long long> b;
    for (size_t k = 1; k < t.size(); k++) { j.buttons.push_back(i(t[k])); b.push_back(i(t[k])); }
    sim::inject("/joy", j);
    sim::post([b]() { vj::Ev("joy").i("t", now()).a("b", b).a("fwd", fwd); fwd.clear(); });
  }
  else if (t[0] == "in")
  {
    int src = i(t[1]);
    long long id = i(t[2]);
    std::string topic = (legacy ? std::string("/joystick_mux/input") : std::string("/mux_input")) + t[1];
    if (cur_twist) { sent[id] = mk(id); sim::inject(topic, sent[id]); }
    else { std_msgs::Int32 m; m.data = id; sim::inject(topic, m); }
    sim::post([src, id]() { flush("in", src, id); });
  }
}
void finished(const std::string& how) { vj::Ev("end").i("t", now()).s("how", how).a("fwd", fwd); }
}  // namespace nd
ND_MAIN
