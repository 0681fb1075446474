// C19/C20/C21: the unmodified trajectory_tracker node, open loop (poses given by the script) or closed loop (simulated robot).
#define main node_main
#include NODE_SRC
#undef main
#define ND_TF
#include "node.h"
namespace nd
{
static const double CM = 0.01;
static bool legacy_, use_odom_, predict_;
static double lf_ = 0.5;
static int frame_tx_, frame_ty_, frame_q_;
static std::vector<std::array<long long, 2>> tw_;
static std::vector<std::string> st_;
static long long outs_t_ = 0;
static double cv_ = 0, cw_ = 0;           // last command
static double sx_ = 0, sy_ = 0, sa_ = 0;  // simulated robot (cm, cm, rad), map frame
static long long sim_t_ = 0;
static long long o_[2] = { 0, 0 };        // the point the controller looks at
static bool o_exact_ = true;
static long long ms() { return std::llround((ros::Time::now() - ros::Time(1000.0)).toSec() * 1000); }
static void flush()
{
  if (tw_.empty() && st_.empty()) return;
  std::string s = "[", u = "[";
  for (auto& x : tw_) s += (s.size() > 1 ? "," : "") + std::string("[") + std::to_string(x[0]) + "," + std::to_string(x[1]) + "]";
  for (auto& x : st_) u += (u.size() > 1 ? "," : "") + x;
  vj::Ev("outs").i("t", outs_t_).raw("tw", s + "]").raw("st", u + "]").a("o", std::vector<long long>{ o_[0], o_[1] }).b("exact", o_exact_);
  tw_.clear();
  st_.clear();
}
static double px_ = 0, py_ = 0, pa_ = 0;  // pose used by the controller
static void ahead();
static void at() { if (outs_t_ != ms()) flush(); outs_t_ = ms(); }
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
static std::string cfgJson(const Tok& t, size_t k, XmlRpc::XmlRpcValue& out)
{
  // name=value: bools b:name, lengths/angles/gains in 1/1000
  std::string js;
  for (; k < t.size(); k++)
  {
    const size_t e = t[k].find('=');
    std::string n = t[k].substr(0, e);
    const long long v = atoll(t[k].c_str() + e + 1);
    js += (js.empty() ? "" : ",") + std::string("\"") + n + "\":" + std::to_string(v);
    if (n == "allow_backward" || n == "limit_vel_by_avel" || n == "check_old_path" || n == "use_time_optimal_control") out[n] = XmlRpc::XmlRpcValue(v != 0);
    else if (n == "path_step") out[n] = XmlRpc::XmlRpcValue(static_cast<int>(v));
    else out[n] = XmlRpc::XmlRpcValue(v / 1000.0);
    if (n == "look_forward") lf_ = v / 1000.0;
  }
  return "{" + js + "}";
}
// begin <legacy> <use_odom> <period ms> <timeout ms> <maxdt ms> <predict> <tx cm> <ty cm> <quarter> <wrong frames> name=value(1/1000) ...
void onBegin(const Tok& t)
{
  legacy_ = i(t[1]); use_odom_ = i(t[2]); predict_ = i(t[6]);
  frame_tx_ = i(t[7]); frame_ty_ = i(t[8]); frame_q_ = i(t[9]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy_ ? 0 : 1));
  const std::string p = "/trajectory_tracker/";
  sim::setParam(p + "use_odom", XmlRpc::XmlRpcValue(use_odom_));
  sim::setParam(p + "hz", XmlRpc::XmlRpcValue(1000.0 / i(t[3])));
  sim::setParam(p + "odom_timeout_sec", XmlRpc::XmlRpcValue(i(t[4]) / 1000.0));
  sim::setParam(p + "max_dt", XmlRpc::XmlRpcValue(i(t[5]) / 1000.0));
  sim::setParam(p + "predict_odom", XmlRpc::XmlRpcValue(static_cast<bool>(i(t[6]))));
  if (i(t[10])) { sim::setParam(p + "frame_odom", XmlRpc::XmlRpcValue(std::string("odom_other"))); sim::setParam(p + "frame_robot", XmlRpc::XmlRpcValue(std::string("base_other"))); }
  XmlRpc::XmlRpcValue c;
  const std::string js = cfgJson(t, 11, c);
  for (size_t k = 11; k < t.size(); k++) { std::string n = t[k].substr(0, t[k].find('=')); sim::setParam(p + n, c[n]); }
  const std::string o = legacy_ ? p : "/";
  sim::sink<geometry_msgs::Twist>(o + "cmd_vel", [](const geometry_msgs::Twist& m)
  {
    at();
    ahead();
    const bool z = m.linear.y == 0 && m.linear.z == 0 && m.angular.x == 0 && m.angular.y == 0;
    tw_.push_back({ z ? vj::sc(m.linear.x, 1e6) : 99999999, vj::sc(m.angular.z, 1e6) });
    cv_ = m.linear.x; cw_ = m.angular.z;
  });
  sim::sink<trajectory_tracker_msgs::TrajectoryTrackerStatus>(p + "status", [](const trajectory_tracker_msgs::TrajectoryTrackerStatus& m)
  {
    at();
    st_.push_back("{\"s\":" + std::to_string(m.status) + ",\"d\":" + std::to_string(vj::sc(m.distance_remains, 10000)) + ",\"a\":" + std::to_string(vj::sc(m.angle_remains, 1e6)) +
                  ",\"path\":" + std::to_string(m.path_header.stamp.sec) + ",\"now\":" + (std::abs((m.header.stamp - ros::Time::now()).toSec()) < 1e-6 ? "true" : "false") + "}");
  });
  vj::Ev("begin").i("t", ms()).b("odom", use_odom_).i("period", i(t[3])).i("timeout", i(t[4])).i("maxdt", i(t[5])).b("predict", i(t[6])).raw("c", js);
}
// map pose (m) in the odom frame
static void toOdom(double x, double y, double a, geometry_msgs::Pose& o)
{
  x -= frame_tx_ * CM; y -= frame_ty_ * CM;
  for (int k = 0; k < frame_q_; k++) { const double n = y; y = -x; x = n; }
  o.position.x = x; o.position.y = y; o.position.z = 0;
  tf2::Quaternion r;
  r.setRPY(0, 0, a - frame_q_ * M_PI / 2);
  o.orientation = tf2::toMsg(r);
}
static void ahead()
{
  const double yp = cw_ * lf_ / 2, l = cv_ * lf_ / CM;
  const double ox = px_ + l * std::cos(pa_ + yp), oy = py_ + l * std::sin(pa_ + yp);
  o_[0] = std::llround(ox); o_[1] = std::llround(oy);
  o_exact_ = std::abs(ox - o_[0]) < 1e-3 && std::abs(oy - o_[1]) < 1e-3;
}
static void pose(const char* op, double x, double y, double a, double v, double w, int age)
{
  // the pose the controller uses (compensated by the prediction)
  const int used = predict_ ? age : 0;
  const double px = x + v / CM * used / 1000.0 * std::cos(a), py = y + v / CM * used / 1000.0 * std::sin(a), pa = a + w * used / 1000.0;
  px_ = px; py_ = py; pa_ = pa;
  const long long rx = std::llround(px), ry = std::llround(py);
  vj::Ev(op).i("t", ms()).i("stamp", ms() - age).a("r", std::vector<long long>{ rx, ry }).b("exact", std::abs(px - rx) < 1e-3 && std::abs(py - ry) < 1e-3)
      .i("yaw", std::llround(pa * 1e6)).i("v", std::llround(v * 1000)).i("w", std::llround(w * 1000)).i("age", age);
}
static void sendOdom(double x, double y, double a, double v, double w, int age)
{
  nav_msgs::Odometry m;
  m.header.frame_id = "odom"; m.child_frame_id = "base_link"; m.header.stamp = ros::Time::now() - ros::Duration(age / 1000.0);
  toOdom(x * CM, y * CM, a, m.pose.pose);
  m.twist.twist.linear.x = v; m.twist.twist.angular.z = w;
  sim::inject("/odom", m);
}
static void sendTf(double x, double y, double a)
{
  geometry_msgs::TransformStamped m;
  m.header.frame_id = "odom"; m.child_frame_id = "base_link"; m.header.stamp = ros::Time::now();
  geometry_msgs::Pose p;
  toOdom(x * CM, y * CM, a, p);
  m.transform.translation.x = p.position.x; m.transform.translation.y = p.position.y; m.transform.rotation = p.orientation;
  sim::setTf(m, false);
}
void handle(const Tok& t, const std::string&)
{
  flush();
  const std::string o = legacy_ ? "/trajectory_tracker/" : "/";
  if (t[0] == "map")
  {
    // map <0|1>: is the transform from map to odom known
    if (!i(t[1])) sim::removeTf("odom");
    else
    {
      geometry_msgs::TransformStamped m;
      m.header.frame_id = "map"; m.child_frame_id = "odom"; m.header.stamp = ros::Time::now();
      m.transform.translation.x = frame_tx_ * CM; m.transform.translation.y = frame_ty_ * CM;
      tf2::Quaternion r;
      r.setRPY(0, 0, frame_q_ * M_PI / 2);
      m.transform.rotation = tf2::toMsg(r);
      sim::setTf(m, true);
    }
    vj::Ev("map").i("t", ms()).b("v", i(t[1]));
  }
  else if (t[0] == "path" || t[0] == "pathv")
  {
    // path <stamp> <frame: 1 map, 0 empty> x y k vel ... (cm, sixteenths, mm/s; vel -1000000: NaN)
    std::vector<std::vector<long long>> q;
    for (size_t k = 3; k + 3 < t.size(); k += 4) q.push_back({ i(t[k]), i(t[k + 1]), i(t[k + 2]), i(t[k + 3]) });
    auto fill = [&](geometry_msgs::PoseStamped& s, size_t k)
    {
      s.pose.position.x = q[k][0] * CM; s.pose.position.y = q[k][1] * CM;
      tf2::Quaternion r;
      r.setRPY(0, 0, q[k][2] * M_PI / 8);
      s.pose.orientation = tf2::toMsg(r);
    };
    auto head = [&](std_msgs::Header& h) { h.frame_id = i(t[2]) ? "map" : ""; h.stamp = ros::Time(i(t[1]), 0); };
    vj::Ev("path").i("t", ms()).i("id", i(t[1])).b("frame", i(t[2])).b("withv", t[0] == "pathv").aa("in", q);
    if (t[0] == "path")
    {
      nav_msgs::Path m;
      head(m.header);
      m.poses.resize(q.size());
      for (size_t k = 0; k < q.size(); k++) fill(m.poses[k], k);
      sim::inject(o + "path", m);
    }
    else
    {
      trajectory_tracker_msgs::PathWithVelocity m;
      head(m.header);
      m.poses.resize(q.size());
      for (size_t k = 0; k < q.size(); k++)
      {
        geometry_msgs::PoseStamped s;
        fill(s, k);
        m.poses[k].pose = s.pose;
        m.poses[k].linear_velocity.x = q[k][3] == -1000000 ? std::numeric_limits<double>::quiet_NaN() : q[k][3] / 1000.0;
      }
      sim::inject("/path_velocity", m);
    }
  }
  else if (t[0] == "speed")
  {
    std_msgs::Float32 f;
    f.data = i(t[1]) / 1000.0;
    vj::Ev("speed").i("t", ms()).i("v", i(t[1]));
    sim::inject(o + "speed", f);
  }
  else if (t[0] == "cfg")
  {
    XmlRpc::XmlRpcValue c;
    const std::string js = cfgJson(t, 1, c);
    vj::Ev("cfg").i("t", ms()).raw("c", js);
    sim::reconfigureAll(c);
  }
  else if (t[0] == "odom")
  {
    // odom x y yaw(mrad) v(mm/s) w(mrad/s) age(ms)
    pose("odom", i(t[1]), i(t[2]), i(t[3]) / 1000.0, i(t[4]) / 1000.0, i(t[5]) / 1000.0, i(t[6]));
    sendOdom(i(t[1]), i(t[2]), i(t[3]) / 1000.0, i(t[4]) / 1000.0, i(t[5]) / 1000.0, i(t[6]));
  }
  else if (t[0] == "pose")
  {
    if (t[1] == "none") { sim::removeTf("base_link"); vj::Ev("nopose").i("t", ms()); return; }
    sendTf(i(t[1]), i(t[2]), i(t[3]) / 1000.0);
    pose("pose", i(t[1]), i(t[2]), i(t[3]) / 1000.0, 0, 0, 0);
  }
  else if (t[0] == "robot") { sx_ = i(t[1]); sy_ = i(t[2]); sa_ = i(t[3]) / 1000.0; sim_t_ = ms(); }
  else if (t[0] == "step")
  {
    // step <late>: the robot has executed the last command; it is then reported (coordinates rounded to centimetres and milliradians)
    const double dt = (ms() - sim_t_) / 1000.0;
    sim_t_ = ms();
    sx_ += cv_ / CM * dt * std::cos(sa_ + cw_ * dt / 2); sy_ += cv_ / CM * dt * std::sin(sa_ + cw_ * dt / 2); sa_ += cw_ * dt;
    while (sa_ > M_PI) sa_ -= 2 * M_PI;
    while (sa_ < -M_PI) sa_ += 2 * M_PI;
    const double x = std::round(sx_), y = std::round(sy_), a = std::round(sa_ * 1000) / 1000;
    const double v = std::round(cv_ * 1000) / 1000, w = std::round(cw_ * 1000) / 1000;
    if (use_odom_) { pose("odom", x, y, a, v, w, 0); sendOdom(x, y, a, v, w, 0); }
    else { sendTf(x, y, a); pose("pose", x, y, a, 0, 0, 0); }
  }
  else if (t[0] == "expect") vj::Ev("expect").i("t", ms()).s("what", t[1]);
}
void finished(const std::string& how)
{
  flush();
  vj::Ev("end").i("t", ms()).s("how", how);
}
}  // namespace nd
ND_MAIN
