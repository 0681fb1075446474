// C29: the unmodified patrol node against a scripted action server.
#define main node_main
#include NODE_SRC
#undef main
#include "node.h"
namespace nd
{
static bool legacy_, tolerant_;
static std::vector<std::string> goals_;
static std::map<std::string, int> final_;
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
template <class G>
static void sentGoal(const G& m, const std::vector<long long>& tol)
{
  const auto& p = m.goal.target_pose;
  // the pose carries its identity; anything changed on the way spoils it
  long long id = std::llround(p.pose.position.x);
  if (p.pose.position.y != 2.0 * id || p.pose.position.z != 3.0 || p.pose.orientation.z != 0.6 || p.pose.orientation.w != 0.8 || p.pose.orientation.x != 0 || p.header.frame_id != "map" + std::to_string(id % 2)) id = -1;
  goals_.push_back(m.goal_id.id);
  vj::Ev("goal").i("id", id).b("stampok", p.header.stamp == ros::Time::now()).a("tol", tol).s("goal", m.goal_id.id);
}
template <class R>
static void result(const std::string& id, int st)
{
  R m;
  m.status.goal_id.id = id;
  m.status.status = st;
  sim::inject(tolerant_ ? "/tolerant_move/result" : "/move_base/result", m);
}
template <class R>
static void hook()
{
  sim::onDeliver<R>(tolerant_ ? "/tolerant_move/result" : "/move_base/result", [](const R& m)
  {
    // a goal ends once
    const bool fin = m.status.status != 1;
    if (final_[m.status.goal_id.id]) { vj::Ev("dup"); return; }
    final_[m.status.goal_id.id] = fin;
    vj::Ev("result").s("goal", m.status.goal_id.id).s("o", m.status.status == 3 || m.status.status == 4 ? "done" : m.status.status == 1 ? "open" : "other");
  });
}
void onBegin(const Tok& t)
{
  // begin <legacy> <tolerant>
  legacy_ = i(t[1]); tolerant_ = i(t[2]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy_ ? 0 : 1));
  sim::setParam("/patrol/with_tolerance", XmlRpc::XmlRpcValue(tolerant_));
  sim::setParam("/patrol/tolerance_lin", XmlRpc::XmlRpcValue(0.25));
  sim::setParam("/patrol/tolerance_ang", XmlRpc::XmlRpcValue(0.5));
  sim::setParam("/patrol/tolerance_ang_finish", XmlRpc::XmlRpcValue(0.75));
  vj::Ev("begin").b("tolerant", tolerant_).raw("tol", "[25,50,75]");
  sim::onDeliver<nav_msgs::Path>(legacy_ ? "/patrol/path" : "/patrol_nodes", [](const nav_msgs::Path& m)
  {
    std::vector<long long> ids;
    for (auto& q : m.poses) ids.push_back(std::llround(q.pose.position.x));
    vj::Ev("path").a("ids", ids);
  });
  const std::string p = tolerant_ ? "/tolerant_move/" : "/move_base/";
  sim::sink<move_base_msgs::MoveBaseActionGoal>(p + "goal", [](const move_base_msgs::MoveBaseActionGoal& m) { sentGoal(m, {}); });
  sim::sink<planner_cspace_msgs::MoveWithToleranceActionGoal>(p + "goal", [](const planner_cspace_msgs::MoveWithToleranceActionGoal& m)
  { sentGoal(m, { vj::sc(m.goal.goal_tolerance_lin, 100), vj::sc(m.goal.goal_tolerance_ang, 100), vj::sc(m.goal.goal_tolerance_ang_finish, 100) }); });
  sim::sink<actionlib_msgs::GoalID>(p + "cancel", [](const actionlib_msgs::GoalID& m)
  { vj::Ev("cancel").b("all", (m.id.empty() && m.stamp == ros::Time()) || (!goals_.empty() && m.id == goals_.back())); });
  if (tolerant_) hook<planner_cspace_msgs::MoveWithToleranceActionResult>();
  else hook<move_base_msgs::MoveBaseActionResult>();
}
void handle(const Tok& t, const std::string&)
{
  if (t[0] == "path")
  {
    nav_msgs::Path m;
    m.header.frame_id = "ignored";
    for (size_t k = 1; k < t.size(); k++)
    {
      geometry_msgs::PoseStamped p;
      p.header.frame_id = "map" + std::to_string(i(t[k]) % 2);
      p.pose.position.x = i(t[k]); p.pose.position.y = 2.0 * i(t[k]); p.pose.position.z = 3; p.pose.orientation.z = 0.6; p.pose.orientation.w = 0.8;
      m.poses.push_back(p);
    }
    sim::inject(legacy_ ? "/patrol/path" : "/patrol_nodes", m);
  }
  else if (t[0] == "result")
  {
    // result <status> <how many goals back>
    const int back = i(t[2]);
    if (static_cast<int>(goals_.size()) <= back) return;
    const std::string g = goals_[goals_.size() - 1 - back];
    if (tolerant_) result<planner_cspace_msgs::MoveWithToleranceActionResult>(g, i(t[1]));
    else result<move_base_msgs::MoveBaseActionResult>(g, i(t[1]));
  }
  else if (t[0] == "idle") vj::Ev("idle");
}
void finished(const std::string& how) { vj::Ev("end").s("how", how); }
}  // namespace nd
ND_MAIN
