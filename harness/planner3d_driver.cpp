// C09/C10/C11: the unmodified planner_3d node. Script lengths are in 1/1000 cell and 1/1000 angular cell.
#include <std_msgs/Empty.h>
#include <std_msgs/Float32.h>
#define main node_main
#include NODE_SRC
#undef main
#define ND_TF
#include "node.h"
namespace nd
{
typedef planner_cspace::planner_3d::Planner3dNode Node;
struct Probe : public Node
{
  void cells(std::string& d, std::string& r)
  {
    for (int z = 0; z < static_cast<int>(map_info_.angle); z++)
      for (int y = 0; y < static_cast<int>(map_info_.height); y++)
        for (int x = 0; x < static_cast<int>(map_info_.width); x++)
        {
          d += (d.size() > 1 ? "," : "") + std::to_string(static_cast<int>(cm_[Astar::Vec(x, y, z)]));
          if (z == 0) r += (r.size() > 1 ? "," : "") + std::to_string(static_cast<int>(cm_rough_[Astar::Vec(x, y, 0)]));
        }
  }
};
static Probe* node_ = nullptr;
static bool legacy_, vel_;
static const double RES = 0.125;
static int A_ = 16;
static int dA_ = 16;
static std::vector<std::string> path_, st_, res_, fb_, cg_, diag_, met_;
static long long outs_t_ = 0;
static long long ms() { return std::llround((ros::Time::now() - ros::Time(1000.0)).toSec() * 1000); }
static std::string join(const std::vector<std::string>& v)
{
  std::string s = "[";
  for (auto& x : v) s += (s.size() > 1 ? "," : "") + x;
  return s + "]";
}
static void emit(const char* op, bool always)
{
  if (!always && path_.empty() && st_.empty() && res_.empty() && fb_.empty() && cg_.empty()) { diag_.clear(); met_.clear(); return; }
  vj::Ev(op).i("t", always ? ms() : outs_t_).raw("paths", join(path_)).raw("st", join(st_)).raw("res", join(res_)).raw("fb", join(fb_)).raw("cg", join(cg_)).raw("diag", join(diag_)).raw("met", join(met_));
  for (auto* v : { &path_, &st_, &res_, &fb_, &cg_, &diag_, &met_ }) v->clear();
}
static bool busy_ = false;              // a callback is running (it may wait for a transform)
static void flush() { if (!busy_) emit("cycle", false); }
static void at() { if (outs_t_ != ms()) flush(); outs_t_ = ms(); }
static void enter() { flush(); busy_ = true; }
int runNode()
{
  int c = 1; char n[] = "planner_3d"; char* v[] = { n, nullptr };
  ros::init(c, v, "planner_3d");
  Probe p;
  node_ = &p;
  p.spin();
  node_ = nullptr;
  return 0;
}
bool preamble(const Tok&) { return false; }
static std::string pose(const geometry_msgs::Pose& p)
{
  const double n2 = p.orientation.x * p.orientation.x + p.orientation.y * p.orientation.y + p.orientation.z * p.orientation.z + p.orientation.w * p.orientation.w;
  const double yaw = std::abs(n2 - 1) < .1 ? tf2::getYaw(p.orientation) : 0;
  long long a = std::llround(yaw / (2 * M_PI / dA_) * 1000);
  a = ((a % (dA_ * 1000)) + dA_ * 1000) % (dA_ * 1000);
  return "[" + std::to_string(vj::sc(p.position.x / RES, 1000)) + "," + std::to_string(vj::sc(p.position.y / RES, 1000)) + "," + std::to_string(a) + "]";
}
template <class P>
static void onPath(const P& m)
{
  at();
  std::string s;
  for (auto& p : m.poses) s += (s.empty() ? "" : ",") + pose(p.pose);
  path_.push_back("{\"map\":" + std::string(m.header.frame_id == "map" ? "true" : "false") + ",\"now\":" + (std::abs((m.header.stamp - ros::Time::now()).toSec()) < 1e-6 ? "true" : "false") + ",\"p\":[" + s + "]}");
}
static int ident(const std::string& s) { return atoi(s.c_str() + 1); }
static XmlRpc::XmlRpcValue conf(const Tok& t, size_t k, std::string& js)
{
  XmlRpc::XmlRpcValue out;
  const double ANG = 2 * M_PI / A_;
  for (; k < t.size(); k++)
  {
    const size_t e = t[k].find('=');
    std::string n = t[k].substr(0, e);
    const long long v = atoll(t[k].c_str() + e + 1);
    js += (js.empty() ? "" : ",") + std::string("\"") + n + "\":" + std::to_string(v);
    auto b = [&](const char* p) { out[p] = XmlRpc::XmlRpcValue(v != 0); };
    auto d = [&](const char* p, double x) { out[p] = XmlRpc::XmlRpcValue(x); };
    auto i = [&](const char* p) { out[p] = XmlRpc::XmlRpcValue(static_cast<int>(v)); };
    if (n == "watchdog") d("costmap_watchdog", v / 1000.0);
    else if (n == "retry") i("max_retry_num");
    else if (n == "acc") i("relocation_acceptable_cost");
    else if (n == "tol") d("tolerance_range", v * RES);
    else if (n == "lin") d("goal_tolerance_lin", v * RES);
    else if (n == "ang") d("goal_tolerance_ang", v * ANG);
    else if (n == "fin") d("goal_tolerance_ang_finish", v / 1000.0 * ANG);
    else if (n == "force") b("force_goal_orientation");
    else if (n == "retain") b("retain_last_error_status");
    else if (n == "esc") b("temporary_escape");
    else if (n == "crowd") b("enable_crowd_mode");
    else if (n == "escr") { d("esc_range", v * RES); }
    else if (n == "escmin") d("esc_range_min_ratio", v / 1000.0);
    else if (n == "tel") d("temporary_escape_tolerance_lin", v * RES);
    else if (n == "tea") d("temporary_escape_tolerance_ang", v * ANG);
    else if (n == "over") b("overwrite_cost");
    else if (n == "unk") i("unknown_cost");
    else if (n == "fast") b("fast_map_update");
    else if (n == "range") d("search_range", v * RES);
    else if (n == "local") d("local_range", v * RES);
    else if (n == "trig") b("trigger_plan_by_costmap_update");
    else if (n == "sw") d("sw_wait", v / 1000.0);
    else if (n == "anti") b("antialias_start");
    else if (n == "best") b("find_best");
    else if (n == "freq") d("freq", v / 1000.0);
    else if (n == "wcost") d("weight_costmap", v);
    else if (n == "keep") b("keep_a_part_of_previous_path");
    else if (n == "threads") i("num_threads");
    else if (n == "tasks") i("num_search_task");
    else { fprintf(stderr, "unknown setting %s\n", n.c_str()); exit(3); }
  }
  return out;
}
template <class G>
static void onGoal(const char* a, const G& m)
{
  const auto& g = m.goal.target_pose;
  enter();
  vj::Ev("ag").i("t", ms()).s("a", a).i("id", ident(m.goal_id.id)).raw("p", pose(g.pose)).b("frame", g.header.frame_id == "map").b("quat", g.pose.orientation.x == 0);
}
template <class R>
static void onResult(const char* a, const R& m)
{
  at();
  res_.push_back("[\"" + std::string(a) + "\"," + std::to_string(ident(m.status.goal_id.id)) + "," + std::to_string(m.status.status) + "]");
}
template <class F>
static void onFeedback(const char* a, const F& m)
{
  at();
  fb_.push_back("[\"" + std::string(a) + "\"," + std::to_string(ident(m.status.goal_id.id)) + "," + pose(m.feedback.base_position.pose) + "]");
}
// begin <legacy> <velocity paths> <angles> setting=value ...
void onBegin(const Tok& t)
{
  legacy_ = i(t[1]); vel_ = i(t[2]); A_ = dA_ = i(t[3]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy_ ? 0 : 1));
  const std::string p = "/planner_3d/";
  sim::W().node = "/planner_3d";
  sim::setParam(p + "use_path_with_velocity", XmlRpc::XmlRpcValue(vel_));
  sim::setParam(p + "freq_min", XmlRpc::XmlRpcValue(0.01));
  sim::setParam(p + "search_timeout_abort", XmlRpc::XmlRpcValue(100.0));
  std::string js;
  XmlRpc::XmlRpcValue c = conf(t, 4, js);
  for (size_t k = 4; k < t.size(); k++) { std::string dummy; Tok one{ t[k] }; XmlRpc::XmlRpcValue v = conf(one, 0, dummy); for (auto& kv : v) sim::setParam(p + kv.first, kv.second); }
  if (vel_) sim::sink<trajectory_tracker_msgs::PathWithVelocity>("/path_velocity", onPath<trajectory_tracker_msgs::PathWithVelocity>);
  else sim::sink<nav_msgs::Path>(legacy_ ? p + "path" : "/path", onPath<nav_msgs::Path>);
  sim::sink<planner_cspace_msgs::PlannerStatus>(p + "status", [](const planner_cspace_msgs::PlannerStatus& m)
  { at(); st_.push_back("[" + std::to_string(m.status) + "," + std::to_string(m.error) + "]"); });
  sim::sink<geometry_msgs::PoseStamped>(p + "current_goal", [](const geometry_msgs::PoseStamped& m) { at(); cg_.push_back(pose(m.pose)); });
  sim::sink<diagnostic_msgs::DiagnosticArray>("/diagnostics", [](const diagnostic_msgs::DiagnosticArray& m) { at(); for (auto& s : m.status) diag_.push_back(std::to_string(s.level)); });
  sim::sink<neonavigation_metrics_msgs::Metrics>(p + "metrics", [](const neonavigation_metrics_msgs::Metrics& m)
  {
    at();
    int s = -1, e = -1, k = -1;
    for (auto& x : m.data) { if (x.name == "status") s = x.value; if (x.name == "error") e = x.value; if (x.name == "stuck_cnt") k = x.value; }
    met_.push_back("[" + std::to_string(s) + "," + std::to_string(e) + "," + std::to_string(k) + "]");
  });
  sim::sink<move_base_msgs::MoveBaseActionResult>("/move_base/result", [](const move_base_msgs::MoveBaseActionResult& m) { onResult("mb", m); });
  sim::sink<planner_cspace_msgs::MoveWithToleranceActionResult>("/tolerant_move/result", [](const planner_cspace_msgs::MoveWithToleranceActionResult& m) { onResult("tol", m); });
  sim::sink<move_base_msgs::MoveBaseActionFeedback>("/move_base/feedback", [](const move_base_msgs::MoveBaseActionFeedback& m) { onFeedback("mb", m); });
  sim::sink<planner_cspace_msgs::MoveWithToleranceActionFeedback>("/tolerant_move/feedback", [](const planner_cspace_msgs::MoveWithToleranceActionFeedback& m) { onFeedback("tol", m); });
  const std::string o = legacy_ ? p : "/", g = legacy_ ? p + "goal" : "/move_base_simple/goal";
  sim::onDeliver<costmap_cspace_msgs::CSpace3D>(o + "costmap", [](const costmap_cspace_msgs::CSpace3D& m)
  {
    enter();
    dA_ = m.info.angle;
    std::vector<long long> d(m.data.begin(), m.data.end());
    vj::Ev("map").i("t", ms()).i("stamp", m.header.stamp.sec).i("w", m.info.width).i("h", m.info.height).i("a", m.info.angle).i("ox", vj::sc(m.info.origin.position.x / RES, 1000)).i("oy", vj::sc(m.info.origin.position.y / RES, 1000)).a("d", d);
  });
  sim::onDeliver<costmap_cspace_msgs::CSpace3DUpdate>(o + "costmap_update", [](const costmap_cspace_msgs::CSpace3DUpdate& m)
  {
    enter();
    std::vector<long long> d(m.data.begin(), m.data.end());
    auto u = [](unsigned v) { return v > 1000000u ? 1000000LL : static_cast<long long>(v); };
    vj::Ev("upd").i("t", ms()).i("stamp", m.header.stamp.sec).i("x", u(m.x)).i("y", u(m.y)).i("z", u(m.yaw)).i("w", u(m.width)).i("h", u(m.height)).i("a", u(m.angle)).a("d", d);
  });
  sim::onDeliver<geometry_msgs::PoseStamped>(g, [](const geometry_msgs::PoseStamped& m)
  { enter(); vj::Ev("goal").i("t", ms()).raw("p", pose(m.pose)).b("frame", m.header.frame_id == "map").b("quat", m.pose.orientation.x == 0); });
  sim::onDeliver<move_base_msgs::MoveBaseActionGoal>("/move_base/goal", [](const move_base_msgs::MoveBaseActionGoal& m)
  { onGoal("mb", m); });
  sim::onDeliver<planner_cspace_msgs::MoveWithToleranceActionGoal>("/tolerant_move/goal", [](const planner_cspace_msgs::MoveWithToleranceActionGoal& m)
  {
    const auto& g = m.goal.target_pose;
    const double ANG = 2 * M_PI / dA_;
    enter();
    vj::Ev("ag").i("t", ms()).s("a", "tol").i("id", ident(m.goal_id.id)).raw("p", pose(g.pose)).b("frame", g.header.frame_id == "map").b("quat", g.pose.orientation.x == 0)
        .i("lin", std::lround(m.goal.goal_tolerance_lin / RES)).i("ang", std::lround(m.goal.goal_tolerance_ang / ANG)).i("fin", std::lround(m.goal.goal_tolerance_ang_finish / ANG * 1000))
        .b("cont", m.goal.continuous_movement_mode);
  });
  for (const char* a : { "mb", "tol" })
    sim::onDeliver<actionlib_msgs::GoalID>(std::string(a) == "mb" ? "/move_base/cancel" : "/tolerant_move/cancel", [a](const actionlib_msgs::GoalID& m)
    { enter(); vj::Ev("cancel").i("t", ms()).s("a", a).i("id", m.id.empty() ? 0 : ident(m.id)); });
  sim::onDeliver<std_msgs::Empty>(p + "temporary_escape", [](const std_msgs::Empty&) { enter(); vj::Ev("escape").i("t", ms()); });
  sim::W().deliver_end_hook = [](const std::string& topic) { if (busy_) { busy_ = false; emit("outs", true); } };
  // computing takes time: a planning cycle at least 10 ms
  static ros::Time last;
  last = ros::Time(0);
  sim::W().spin_once_hook = []() { if (sim::W().now == last) ros::Duration(0.01).sleep(); last = sim::W().now; };
  sim::W().timer_hook = [](int) { enter(); };
  sim::W().timer_end_hook = [](int) { busy_ = false; emit("timer", false); };
  vj::Ev("begin").i("t", ms()).raw("c", "{" + js + "}");
}
static geometry_msgs::Pose metric(double x, double y, double a, bool ok = true)
{
  geometry_msgs::Pose p;
  p.position.x = x / 1000 * RES;
  p.position.y = y / 1000 * RES;
  tf2::Quaternion q;
  q.setRPY(0, 0, a / 1000 * 2 * M_PI / A_);
  p.orientation = tf2::toMsg(q);
  if (!ok) { p.orientation.x = 0.5; p.orientation.y = 0.5; p.orientation.z = 0.7; p.orientation.w = 0.7; }
  return p;
}
static void fill(std::vector<int8_t>& d, const Tok& t, size_t k, size_t cells, size_t angles)
{
  const size_t n = t.size() - k;
  for (size_t a = 0; a < angles; a++)
    for (size_t c = 0; c < cells; c++)
      d.push_back(n == cells ? i(t[k + c]) : i(t[k + a * cells + c]));
}
void handle(const Tok& t, const std::string&)
{
  const std::string p = "/planner_3d/", o = legacy_ ? p : "/", g = legacy_ ? p + "goal" : "/move_base_simple/goal";
  const std::string ok = t[0];
  if (ok == "map")  // map stamp w h ox oy data (origin in 1/1000 cell)
  {
    costmap_cspace_msgs::CSpace3D m;
    m.header.frame_id = "map"; m.header.stamp = ros::Time(d(t[1]));
    m.info.width = i(t[2]); m.info.height = i(t[3]); m.info.angle = A_;
    m.info.linear_resolution = RES; m.info.angular_resolution = 2 * M_PI / A_;
    m.info.origin.position.x = d(t[4]) / 1000 * RES; m.info.origin.position.y = d(t[5]) / 1000 * RES; m.info.origin.orientation.w = 1;
    fill(m.data, t, 6, m.info.width * m.info.height, A_);
    sim::inject(o + "costmap", m);
  }
  else if (ok == "upd")  // upd stamp x y yaw w h a data
  {
    costmap_cspace_msgs::CSpace3DUpdate m;
    m.header.frame_id = "map"; m.header.stamp = ros::Time(d(t[1]));
    m.x = atoll(t[2].c_str()); m.y = atoll(t[3].c_str()); m.yaw = i(t[4]); m.width = i(t[5]); m.height = i(t[6]); m.angle = i(t[7]);
    fill(m.data, t, 8, m.width * m.height, m.angle);
    sim::inject(o + "costmap_update", m);
  }
  else if (ok == "pose")
  {
    geometry_msgs::TransformStamped m;
    m.header.frame_id = "map"; m.child_frame_id = "base_link"; m.header.stamp = ros::Time::now();
    geometry_msgs::Pose q = metric(d(t[1]), d(t[2]), d(t[3]));
    m.transform.translation.x = q.position.x; m.transform.translation.y = q.position.y;
    m.transform.rotation = q.orientation;
    sim::setTf(m, true);
    flush();
    vj::Ev("pose").i("t", ms()).i("x", i(t[1])).i("y", i(t[2])).i("a", ((i(t[3]) % (A_ * 1000)) + A_ * 1000) % (A_ * 1000));
  }
  else if (ok == "nopose") { sim::removeTf("base_link"); flush(); vj::Ev("nopose").i("t", ms()); }
  else if (ok == "settled") { flush(); vj::Ev("settled").i("t", ms()); }  // the last pose change has been noticed
  else if (ok == "goal")  // goal x y a frame quat
  {
    geometry_msgs::PoseStamped m;
    m.header.frame_id = i(t[4]) ? "map" : "other";
    m.pose = metric(d(t[1]), d(t[2]), d(t[3]), i(t[5]));
    sim::inject(g, m);
  }
  else if (ok == "mb")  // mb id x y a frame quat
  {
    move_base_msgs::MoveBaseActionGoal m;
    m.goal_id.id = "g" + t[1]; m.goal_id.stamp = ros::Time::now();
    m.goal.target_pose.header.frame_id = i(t[5]) ? "map" : "other";
    m.goal.target_pose.pose = metric(d(t[2]), d(t[3]), d(t[4]), i(t[6]));
    sim::inject("/move_base/goal", m);
  }
  else if (ok == "tol")  // tol id x y a frame quat lin ang fin cont
  {
    planner_cspace_msgs::MoveWithToleranceActionGoal m;
    const double ANG = 2 * M_PI / A_;
    m.goal_id.id = "g" + t[1]; m.goal_id.stamp = ros::Time::now();
    m.goal.target_pose.header.frame_id = i(t[5]) ? "map" : "other";
    m.goal.target_pose.pose = metric(d(t[2]), d(t[3]), d(t[4]), i(t[6]));
    m.goal.goal_tolerance_lin = d(t[7]) * RES; m.goal.goal_tolerance_ang = d(t[8]) * ANG; m.goal.goal_tolerance_ang_finish = d(t[9]) / 1000 * ANG;
    m.goal.continuous_movement_mode = i(t[10]);
    sim::inject("/tolerant_move/goal", m);
  }
  else if (ok == "cancel")
  {
    actionlib_msgs::GoalID m;
    if (t[2] != "0") m.id = "g" + t[2];
    sim::inject(t[1] == "mb" ? "/move_base/cancel" : "/tolerant_move/cancel", m);
  }
  else if (ok == "escape") sim::inject(p + "temporary_escape", std_msgs::Empty());
  else if (ok == "cfg")
  {
    sim::post([t]()
    {
      flush();
      std::string js;
      XmlRpc::XmlRpcValue c = conf(t, 1, js);
      sim::reconfigure("/planner_3d", c);
      vj::Ev("cfg").i("t", ms()).raw("c", "{" + js + "}");
    });
  }
  else if (ok == "dump")
  {
    if (!node_) return;
    flush();
    std::string c = "[", r = "[";
    node_->cells(c, r);
    vj::Ev("dump").i("t", ms()).raw("d", c + "]").raw("r", r + "]");
  }
  else if (ok == "mkplan")  // mkplan sx sy sa gx gy ga tol frame
  {
    sim::post([t]()
    {
      flush();
      const std::string p = "/planner_3d/";
      nav_msgs::GetPlan::Request q;
      nav_msgs::GetPlan::Response s;
      q.start.header.frame_id = "map"; q.goal.header.frame_id = i(t[8]) ? "map" : "other";
      q.start.pose = metric(d(t[1]), d(t[2]), d(t[3]));
      q.goal.pose = metric(d(t[4]), d(t[5]), d(t[6]));
      q.tolerance = i(t[7]) * RES;
      const bool r = sim::call(p + "make_plan", q, s);
      std::string u;
      for (auto& x : s.plan.poses) u += (u.empty() ? "" : ",") + pose(x.pose);
      vj::Ev("mkplan").i("t", ms()).raw("s", pose(q.start.pose)).raw("g", pose(q.goal.pose)).i("tol", i(t[7])).b("frame", i(t[8])).b("ok", r).raw("p", "[" + u + "]");
    });
  }
  else { fprintf(stderr, "bad script line %s\n", ok.c_str()); exit(3); }
}
void finished(const std::string& how) { busy_ = false; flush(); vj::Ev("end").i("t", ms()).s("how", how); }
}  // namespace nd
ND_MAIN
