// C26: the unmodified trajectory_recorder, trajectory_saver and trajectory_server nodes; files live in a scratch directory.
#define main rec_main
#include REC_SRC
#undef main
#define main sav_main
#include SAV_SRC
#undef main
#define main srv_main
#include SRV_SRC
#undef main
#define ND_TF
#include "node.h"
#include <tf2/utils.h>
namespace nd
{
static std::string node_, dir_;
static bool legacy_, store_;
static double yawOf(int k) { double y = k * M_PI / 8; while (y > M_PI) y -= 2 * M_PI; while (y <= -M_PI) y += 2 * M_PI; return y; }
typedef std::vector<int> V;
static geometry_msgs::Pose pose(const V& v)
{
  geometry_msgs::Pose p;
  p.position.x = v[0] / 16.0; p.position.y = v[1] / 16.0; p.position.z = v[2] / 16.0;
  tf2::Quaternion q;
  q.setRPY(0.1 * (v[3] % 3), 0.05 * (v[3] % 2), yawOf(v[3]));
  p.orientation = tf2::toMsg(q);
  return p;
}
// [x, y, z] in 1/16000 m and the heading; wrong orientation: heading -1
static V code(const geometry_msgs::Pose& p)
{
  V v{static_cast<int>(std::llround(p.position.x * 16000)), static_cast<int>(std::llround(p.position.y * 16000)), static_cast<int>(std::llround(p.position.z * 16000)), 0};
  const int k = ((std::llround(tf2::getYaw(p.orientation) / (M_PI / 8)) % 16) + 16) % 16;
  const auto w = pose(V{0, 0, 0, k}).orientation;
  const double dot = w.x * p.orientation.x + w.y * p.orientation.y + w.z * p.orientation.z + w.w * p.orientation.w;
  v[3] = std::abs(std::abs(dot) - 1) < 1e-9 ? k : -1;
  return v;
}
static std::vector<V> codes(const nav_msgs::Path& m)
{
  std::vector<V> r;
  for (const auto& p : m.poses) r.push_back(code(p.pose));
  return r;
}
static bool framesOk(const nav_msgs::Path& m, const std::string& f)
{
  for (const auto& p : m.poses) if (p.header.frame_id != f) return false;
  return m.header.frame_id == f;
}
static nav_msgs::Path path(const Tok& t, size_t from)
{
  nav_msgs::Path m;
  m.header.frame_id = "map";
  m.header.stamp = ros::Time(55.5);
  for (size_t k = from; k + 3 < t.size(); k += 4)
  {
    geometry_msgs::PoseStamped p;
    p.header.frame_id = "map";
    p.header.stamp = ros::Time(70.25 + k);
    p.pose = pose(V{i(t[k]), i(t[k + 1]), i(t[k + 2]), i(t[k + 3])});
    m.poses.push_back(p);
  }
  return m;
}
static std::string file(const std::string& n) { return dir_ + "/" + n + ".path"; }
static void files(const char* op)
{
  std::string js = "{";
  for (const char* n : {"a", "b", "c"})
  {
    std::ifstream f(file(n));
    if (!f) continue;
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    nav_msgs::Path m;
    bool ok = true;
    try
    {
      ros::serialization::IStream st(reinterpret_cast<uint8_t*>(&s[0]), s.size());
      ros::serialization::deserialize(st, m);
      ok = ros::serialization::serializationLength(m) == s.size() && framesOk(m, "map");
    }
    catch (const std::exception&) { ok = false; }
    std::string ps = "[";
    for (const auto& v : codes(m)) ps += (ps.size() > 1 ? ",[" : "[") + std::to_string(v[0]) + "," + std::to_string(v[1]) + "," + std::to_string(v[2]) + "," + std::to_string(v[3]) + "]";
    js += (js.size() > 1 ? ",\"" : "\"") + std::string(n) + "\":" + (ok ? ps + "]" : "[[-7,-7,-7,-7]]");
  }
  vj::Ev(op).raw("files", js + "}").b("none", js == "{");
}
int runNode()
{
  int c = 1;
  char n[] = "node";
  char* v[] = { n, nullptr };
  return node_ == "rec" ? rec_main(c, v) : node_ == "sav" ? sav_main(c, v) : srv_main(c, v);
}
static std::string base(const std::string& p)
{
  if (p.empty()) return "";
  for (const char* n : {"a", "b", "c", "x"}) if (p == file(n)) return n;
  return p == "a.path" ? "default" : "other";
}
static int interval_, filter_;
bool preamble(const Tok& t)
{
  if (t[0] == "interval") { interval_ = i(t[1]); sim::setParam("/trajectory_recorder/dist_interval", XmlRpc::XmlRpcValue((interval_ + 0.5) / 16.0)); return true; }
  if (t[0] == "store") { store_ = true; sim::setParam("/trajectory_recorder/store_time", XmlRpc::XmlRpcValue(true)); return true; }
  if (t[0] == "filter") { filter_ = i(t[1]); sim::setParam("/trajectory_server/filter_step", XmlRpc::XmlRpcValue(filter_ / 4.0)); return true; }
  if (t[0] == "file")
  {
    sim::setParam("/trajectory_saver/file", XmlRpc::XmlRpcValue(t[1] == "x" ? dir_ + "/no/such/x.path" : file(t[1])));
    sim::setParam("/trajectory_server/file", XmlRpc::XmlRpcValue(file(t[1])));
    return true;
  }
  return false;
}
static std::string goal_;
void onBegin(const Tok& t)
{
  vj::Ev("begin").s("node", node_).i("interval", interval_).i("filter", filter_).s("file", goal_);
  const std::string topic = legacy_ ? (node_ == "rec" ? "/trajectory_recorder/recpath" : "/trajectory_server/path") : "/path";
  if (node_ != "sav")
    sim::sink<nav_msgs::Path>(topic, [](const nav_msgs::Path& m)
    {
      bool ok = framesOk(m, "map");
      if (node_ == "rec")
        for (const auto& p : m.poses) ok = ok && (store_ ? p.header.stamp > ros::Time(1) && p.header.stamp <= ros::Time::now() : p.header.stamp.isZero());
      vj::Ev("out").aa("poses", codes(m)).b("ok", ok);
    });
  else
    sim::onDeliver<nav_msgs::Path>(legacy_ ? "/trajectory_saver/recpath" : "/path", [](const nav_msgs::Path& m) { vj::Ev("saw").aa("poses", codes(m)); });
  if (node_ == "srv")
  {
    sim::sink<trajectory_tracker_msgs::TrajectoryServerStatus>("/trajectory_server/status", [](const trajectory_tracker_msgs::TrajectoryServerStatus& m)
    {
      vj::Ev("status").s("file", base(m.filename)).i("id", m.id);
    });
    sim::markersApplied() = []()
    {
      std::vector<V> r;
      const auto& a = sim::markerServer()->applied();
      bool ok = true;
      for (size_t k = 0; k < a.size(); k++)
      {
        const auto f = a.find(std::to_string(k));
        if (f == a.end()) { ok = false; break; }
        r.push_back(code(f->second.marker.pose));
        ok = ok && f->second.marker.header.frame_id == "map" && f->second.marker.controls.size() == 2 && f->second.marker.menu_entries.size() == 2;
      }
      vj::Ev("marks").aa("poses", r).b("ok", ok);
    };
  }
}
void handle(const Tok& t, const std::string&)
{
  if (t[0] == "pose")
  {
    const V v{i(t[1]), i(t[2]), i(t[3]), i(t[4])};
    geometry_msgs::TransformStamped m;
    m.header.frame_id = "map"; m.child_frame_id = "base_link"; m.header.stamp = ros::Time::now();
    const auto p = pose(v);
    m.transform.translation.x = p.position.x; m.transform.translation.y = p.position.y; m.transform.translation.z = p.position.z;
    m.transform.rotation = p.orientation;
    sim::setTf(m, store_);
    vj::Ev("pose").a("p", V{1000 * v[0], 1000 * v[1], 1000 * v[2], v[3]});
  }
  else if (t[0] == "nopose") { sim::removeTf("base_link"); vj::Ev("nopose"); }
  else if (t[0] == "settled") vj::Ev("settled");
  else if (t[0] == "clear")
    sim::post([]()
    {
      std_srvs::Empty s;
      vj::Ev("clear").b("ok", sim::call("/trajectory_recorder/clear_path", s.request, s.response));
    });
  else if (t[0] == "path") sim::inject(legacy_ ? "/trajectory_saver/recpath" : "/path", path(t, 1));
  else if (t[0] == "load")
  {
    const std::string n = t[1];
    const int id = i(t[2]);
    sim::post([n, id]()
    {
      trajectory_tracker_msgs::ChangePath s;
      s.request.filename = file(n);
      s.request.id = id;
      vj::Ev("load").s("file", n).i("id", id);
      const bool done = sim::call(legacy_ ? "/trajectory_server/ChangePath" : "/change_path", s.request, s.response);
      vj::Ev("loaded").b("done", done).b("ok", s.response.success);
    });
  }
  else if (t[0] == "fb")
  {
    // fb <marker> <event> <menu> x y z k
    visualization_msgs::InteractiveMarkerFeedback f;
    f.marker_name = t[1];
    f.event_type = i(t[2]);
    f.menu_entry_id = i(t[3]);
    const V v{i(t[4]), i(t[5]), i(t[6]), i(t[7])};
    f.pose = pose(v);
    sim::post([f, v]()
    {
      vj::Ev("fb").i("m", atoi(f.marker_name.c_str())).i("event", f.event_type).i("menu", f.menu_entry_id).a("p", V{1000 * v[0], 1000 * v[1], 1000 * v[2], v[3]});
      const bool seen = sim::markerServer()->feedback(f);
      vj::Ev("fbdone").b("seen", seen);
    });
  }
}
void finished(const std::string& how)
{
  vj::Ev("end").s("how", how);
  files("files");
}
}  // namespace nd
// the parts of "begin <node> <legacy> <dir> <wipe>" needed by the preamble are set first
int main(int argc, char** argv)
{
  if (argc < 3) return 3;
  std::ifstream is(argv[1]);
  std::vector<std::vector<std::string>> eps;
  std::string l;
  while (std::getline(is, l))
  {
    if (l.compare(0, 5, "begin") == 0) eps.emplace_back();
    if (eps.empty()) return 3;
    eps.back().push_back(l);
  }
  vj::open(argv[2]);
  nd::dir_ = std::string(argv[2]) + ".d";
  if (system(("mkdir -p '" + nd::dir_ + "'").c_str())) return 3;
  for (const char* n : {"a", "b", "c"}) remove(nd::file(n).c_str());
  for (auto& e : eps)
  {
    fflush(vj::out());
    pid_t p = fork();
    if (p == 0)
    {
      const nd::Tok t = nd::tok(e[0]);
      nd::node_ = t[1];
      nd::legacy_ = nd::i(t[2]);
      for (const auto& x : e) if (x.compare(0, 5, "file ") == 0) nd::goal_ = x.substr(5);
      sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(nd::legacy_ ? 0 : 1));
      const int r = nd::episode(e);
      fflush(vj::out());
      _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "\nepisode ended with status %d\n", st); return WIFEXITED(st) ? WEXITSTATUS(st) : 97; }
  }
  return 0;
}
