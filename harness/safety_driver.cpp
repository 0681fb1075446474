// C15/C16: the unmodified safety_limiter node.
#define main node_main
#include NODE_SRC
#undef main
#define ND_TF
#include "node.h"
namespace nd
{
static const double U = 1e-4;
static bool legacy_;
static int nclouds_, dtms_;
static std::vector<std::array<long long, 3>> tw_;
static std::vector<std::string> st_;
static long long outs_t_ = 0;
static long long ms() { return std::llround((ros::Time::now() - ros::Time(1000.0)).toSec() * 1000); }
static void flush()
{
  if (tw_.empty() && st_.empty()) return;
  std::string s = "[", u = "[";
  for (auto& x : tw_) s += (s.size() > 1 ? "," : "") + std::string("[") + std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + std::to_string(x[2]) + "]";
  for (auto& x : st_) u += (u.size() > 1 ? "," : "") + x;
  vj::Ev("outs").i("t", outs_t_).raw("tw", s + "]").raw("st", u + "]");
  tw_.clear();
  st_.clear();
}
static void at() { if (outs_t_ != ms()) flush(); outs_t_ = ms(); }
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
// begin <legacy> <nclouds> <static> name=value ... (integers: period dt timeout disable hold [ms], lengths and velocities [1e-4], allowempty) foot x y x y ...
void onBegin(const Tok& t)
{
  legacy_ = i(t[1]);
  nclouds_ = i(t[2]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy_ ? 0 : 1));
  const std::string p = "/safety_limiter/";
  auto set = [&](const char* n, double v) { sim::setParam(p + n, XmlRpc::XmlRpcValue(v)); };
  std::map<std::string, long long> c;
  std::string js = "{\"static\":" + std::string(i(t[3]) ? "true" : "false");
  size_t k = 4;
  for (; k < t.size() && t[k] != "foot"; k++)
  {
    const size_t e = t[k].find('=');
    c[t[k].substr(0, e)] = atoll(t[k].c_str() + e + 1);
    js += ",\"" + t[k].substr(0, e) + "\":" + (t[k].substr(0, e) == "allowempty" ? (i(t[k].substr(e + 1)) ? "true" : "false") : t[k].substr(e + 1));
  }
  XmlRpc::XmlRpcValue f;
  std::string fs = "[";
  int n = 0;
  for (k++; k + 1 < t.size(); k += 2, n++)
  {
    XmlRpc::XmlRpcValue v;
    v[0] = i(t[k]) * U;
    v[1] = i(t[k + 1]) * U;
    f[n] = v;
    fs += (n ? "," : "") + std::string("[") + t[k] + "," + t[k + 1] + "]";
  }
  sim::setParam(p + "footprint", f);
  dtms_ = c["dt"];
  set("freq", 1000.0 / c["period"]); set("dt", c["dt"] / 1000.0); set("cloud_timeout", c["timeout"] / 1000.0); set("disable_timeout", c["disable"] / 1000.0);
  set("hold", c["hold"] / 1000.0); set("watchdog_interval", c["watchdog"] / 1000.0);
  set("lin_vel", c["linvel"] * U); set("lin_acc", c["linacc"] * U); set("ang_vel", c["angvel"] * U); set("ang_acc", c["angacc"] * U);
  set("max_linear_vel", c["maxlin"] * U); set("max_angular_vel", c["maxang"] * U);
  set("z_range_min", c["zmin"] * U); set("z_range_max", c["zmax"] * U);
  set("d_margin", c["dmargin"] * U); set("d_escape", c["descape"] * U); set("yaw_margin", c["yawmargin"] * U); set("yaw_escape", c["yawescape"] * U);
  sim::setParam(p + "allow_empty_cloud", XmlRpc::XmlRpcValue(static_cast<bool>(c["allowempty"])));
  sim::setParam(p + "num_input_clouds", XmlRpc::XmlRpcValue(nclouds_));
  sim::setParam(p + "downsample_grid", XmlRpc::XmlRpcValue(0.02));
  sim::sink<geometry_msgs::Twist>(legacy_ ? p + "cmd_vel_out" : "/cmd_vel", [](const geometry_msgs::Twist& m)
  {
    at();
    tw_.push_back({ vj::sc(m.linear.x, 1 / U), vj::sc(m.linear.y, 1 / U), vj::sc(m.angular.z, 1 / U) });
  });
  sim::sink<safety_limiter_msgs::SafetyLimiterStatus>(p + "status", [](const safety_limiter_msgs::SafetyLimiterStatus& m)
  {
    at();
    st_.push_back("{\"r\":" + std::to_string(vj::sc(m.limit_ratio, 10000)) + ",\"cloud\":" + (m.is_cloud_available ? "true" : "false") + ",\"wd\":" + (m.has_watchdog_timed_out ? "true" : "false") + "}");
  });
  vj::Ev("begin").i("t", ms()).raw("c", js + ",\"foot\":" + fs + "]}");
}
static geometry_msgs::TransformStamped frame(const char* p, const char* c, long long x, long long y, int q)
{
  geometry_msgs::TransformStamped m;
  m.header.frame_id = p; m.child_frame_id = c; m.header.stamp = ros::Time::now();
  m.transform.translation.x = x * U; m.transform.translation.y = y * U;
  tf2::Quaternion r;
  r.setRPY(0, 0, q * M_PI / 2);
  m.transform.rotation = tf2::toMsg(r);
  return m;
}
void handle(const Tok& t, const std::string&)
{
  flush();
  const std::string p = legacy_ ? "/safety_limiter/" : "/";
  if (t[0] == "pose" || t[0] == "sensor")
  {
    // pose <static> x y quarter | pose none
    const char* par = t[0] == "pose" ? "odom" : "base_link";
    const char* ch = t[0] == "pose" ? "base_link" : "sensor";
    if (t[1] == "none") { sim::removeTf(ch); vj::Ev("no" + t[0]).i("t", ms()); return; }
    sim::setTf(frame(par, ch, i(t[2]), i(t[3]), i(t[4])), i(t[1]));
    vj::Ev(t[0]).i("t", ms()).i("x", i(t[2])).i("y", i(t[3])).i("q", i(t[4]));
  }
  else if (t[0] == "cmd")
  {
    // cmd vx vy deg-per-step
    geometry_msgs::Twist m;
    m.linear.x = i(t[1]) * U; m.linear.y = i(t[2]) * U; m.angular.z = i(t[3]) * M_PI / 180 / (dtms_ / 1000.0);
    vj::Ev("cmd").i("t", ms()).i("vx", i(t[1])).i("vy", i(t[2])).i("deg", i(t[3])).i("w", vj::sc(m.angular.z, 1 / U));
    sim::inject(p + "cmd_vel_in", m);
  }
  else if (t[0] == "reset") { vj::Ev("reset").i("t", ms()); sim::inject(p + "watchdog_reset", std_msgs::Empty()); }
  else if (t[0] == "disable")
  {
    std_msgs::Bool b;
    b.data = i(t[1]);
    vj::Ev("disable").i("t", ms()).b("v", b.data);
    sim::inject(p + (legacy_ ? "disable" : "disable_safety"), b);
  }
  else if (t[0] == "cloud")
  {
    // cloud <index> <stamp ms or offset with 'o'> x y z ...
    sensor_msgs::PointCloud2 m;
    m.header.frame_id = "sensor";
    const long long st = t[2][0] == 'o' ? ms() + atoll(t[2].c_str() + 1) : atoll(t[2].c_str());
    m.header.stamp = ros::Time(1000.0) + ros::Duration(st / 1000.0);
    std::vector<std::vector<long long>> pts;
    for (size_t k = 3; k + 2 < t.size(); k += 3) pts.push_back({ i(t[k]), i(t[k + 1]), i(t[k + 2]) });
    sensor_msgs::PointCloud2Modifier mod(m);
    mod.setPointCloud2Fields(3, "x", 1, sensor_msgs::PointField::FLOAT32, "y", 1, sensor_msgs::PointField::FLOAT32, "z", 1, sensor_msgs::PointField::FLOAT32);
    mod.resize(pts.size());
    sensor_msgs::PointCloud2Iterator<float> x(m, "x"), y(m, "y"), z(m, "z");
    for (auto& q : pts) { *x = q[0] * U; *y = q[1] * U; *z = q[2] * U; ++x; ++y; ++z; }
    vj::Ev("cloud").i("t", ms()).i("stamp", st).aa("pts", pts);
    sim::inject(nclouds_ == 1 ? p + "cloud" : "/cloud" + std::to_string(i(t[1])), m);
  }
}
void finished(const std::string& how) { flush(); vj::Ev("end").i("t", ms()).s("how", how); }
}  // namespace nd
ND_MAIN
