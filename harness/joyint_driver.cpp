// C17: the unmodified joystick_interrupt node driven by scripted joystick and velocity messages.
#include <ros/ros.h>
#define main node_main
#include NODE_SRC
#undef main
#include "node.h"
namespace nd
{
typedef std::vector<long long> V;
static std::vector<V> out;       // published velocities (1/4096 units)
static V status;
static std::string in_topic, out_topic;
static V vec(const geometry_msgs::Twist& m)
{
  const double k = 4096;
  return V{ vj::sc(m.linear.x, k), vj::sc(m.linear.y, k), vj::sc(m.linear.z, k), vj::sc(m.angular.x, k), vj::sc(m.angular.y, k), vj::sc(m.angular.z, k) };
}
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
static long long pd(const char* n, double def) { return vj::sc(ros::NodeHandle("/joystick_interrupt").param(n, def), 16); }
static long long pi(const char* n, int def) { return ros::NodeHandle("/joystick_interrupt").param(n, def); }
void onBegin(const Tok& t)
{
  bool legacy = i(t[1]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy ? 0 : 1));
  in_topic = legacy ? "/joystick_interrupt/cmd_vel_input" : "/cmd_vel_input";
  out_topic = legacy ? "/joystick_interrupt/cmd_vel" : "/cmd_vel";
  sim::sink<geometry_msgs::Twist>(out_topic, [](const geometry_msgs::Twist& m) { out.push_back(vec(m)); });
  sim::sink<std_msgs::Bool>("/joystick_interrupt/interrupt_status", [](const std_msgs::Bool& m) { status.push_back(m.data); });
  vj::Ev("begin").i("t", now()).i("timeout", std::llround(ros::NodeHandle("/joystick_interrupt").param("timeout", 0.5) * 1e6))
    .i("button", pi("interrupt_button", 6)).i("high", pi("high_speed_button", -1))
    .a("ax", V{ pi("linear_axis", 1), pi("linear_axis2", -1), pi("linear_y_axis", -1), pi("linear_y_axis2", -1), pi("angular_axis", 0), pi("angular_axis2", -1) })
    .a("vel", V{ pd("linear_vel", 0.5), pd("linear_y_vel", 0.0), pd("angular_vel", 0.8) })
    .a("ratio", V{ pd("linear_high_speed_ratio", 1.3), pd("angular_high_speed_ratio", 1.1) });
}
static void fin(vj::Ev& e)
{
  e.aa("out", out).a("st", status);
  out.clear(); status.clear();
}
void handle(const Tok& t, const std::string&)
{
  if (t[0] == "joy")  // joy b b b | a a a   (axes in quarters)
  {
    sensor_msgs::Joy j;
    V b, a;
    size_t k = 1;
    for (; t[k] != "|"; k++) { j.buttons.push_back(i(t[k])); b.push_back(i(t[k])); }
    for (k++; k < t.size(); k++) { j.axes.push_back(i(t[k]) / 4.0f); a.push_back(i(t[k])); }
    sim::inject("/joy", j);
    sim::post([b, a]() { vj::Ev e("joy"); e.i("t", now()).a("b", b).a("a", a); fin(e); });
  }
  else if (t[0] == "in")
  {
    geometry_msgs::Twist m;
    m.linear.x = i(t[1]) / 16.0; m.linear.y = i(t[2]) / 16.0; m.linear.z = i(t[3]) / 16.0;
    m.angular.x = i(t[4]) / 16.0; m.angular.y = i(t[5]) / 16.0; m.angular.z = i(t[6]) / 16.0;
    V v = vec(m);
    sim::inject(in_topic, m);
    sim::post([v]() { vj::Ev e("in"); e.i("t", now()).a("v", v); fin(e); });
  }
}
void finished(const std::string& how) { vj::Ev e("end"); e.i("t", now()).s("how", how); fin(e); }
}  // namespace nd
ND_MAIN
