// Runs StartPosePredictor on paths with integer geometry (1 unit = 1/16 m, headings k/16 turn).
#include <planner_cspace/planner_3d/start_pose_predictor.h>
#include "jout.h"
using namespace planner_cspace::planner_3d;
static const double U = 1.0 / 16;
static double yawOf(int k) { double y = k * M_PI / 8; while (y > M_PI) y -= 2 * M_PI; while (y <= -M_PI) y += 2 * M_PI; return y; }
static int kOf(double y) { return static_cast<int>(((std::llround(y / (M_PI / 8)) % 16) + 16) % 16); }
int main(int argc, char** argv)
{
  if (argc < 3) return 3;
  std::ifstream is(argv[1]);
  vj::open(argv[2]);
  std::unique_ptr<StartPosePredictor> p(new StartPosePredictor());
  planner_cspace::GridAstar<3, 2>::Gridmap<char, 0x40> cm;
  costmap_cspace_msgs::MapMetaData3D info;
  const auto kept = [&]()
  {
    std::vector<std::vector<int>> r;
    for (const auto& q : p->getPreservedPath().poses)
      r.push_back({static_cast<int>(std::llround(q.pose.position.x / U)), static_cast<int>(std::llround(q.pose.position.y / U)), kOf(tf2::getYaw(q.pose.orientation))});
    return r;
  };
  int ox = 0, oy = 0, res = 8;
  std::string line;
  while (std::getline(is, line))
  {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "conf")
    {
      int fresh, pred, sb, stop, lin, ang;
      s >> fresh >> pred >> sb >> stop >> lin >> ang;
      if (fresh) p.reset(new StartPosePredictor());
      StartPosePredictor::Config c;
      c.prediction_sec_ = pred * 0.001; c.switch_back_prediction_sec_ = sb * 0.001; c.dist_stop_ = stop * U * 0.01; c.lin_vel_ = lin * U; c.ang_vel_ = ang * M_PI / 8;
      p->setConfig(c);
      vj::Ev("conf").i("pred", pred).i("sb", sb).i("stop", stop).i("lin", lin).i("ang", ang)
          .aa("pres", kept()).i("len", vj::sc(p->getPreservedPathLength(), 1600));
    }
    else if (op == "map")
    {
      int w, h, a, n;
      s >> w >> h >> a >> res >> ox >> oy >> n;
      info.width = w; info.height = h; info.angle = a;
      info.linear_resolution = res * U; info.angular_resolution = 2 * M_PI / a;
      info.origin.position.x = ox * U; info.origin.position.y = oy * U; info.origin.orientation.w = 1;
      cm.reset(planner_cspace::GridAstar<3, 2>::Vec(w, h, a));
      int seed = w * 7 + n;
      for (int z = 0; z < a; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++)
        cm[planner_cspace::GridAstar<3, 2>::Vec(x, y, z)] = static_cast<char>((seed = (seed * 1103 + 12345) & 0xffff) % 100);
      std::vector<std::vector<int>> l;
      for (int i = 0; i < n; i++)
      {
        int x, y, z;
        s >> x >> y >> z;
        for (int q = 0; q < a; q++)
          if (z < 0 || q == z)
          {
            cm[planner_cspace::GridAstar<3, 2>::Vec(x, y, q)] = 100;
            l.push_back({x, y, q});
          }
      }
      vj::Ev("map").i("res", res).i("a", a).i("ox", ox).i("oy", oy).aa("lethal", l);
    }
    else if (op == "pred")
    {
      int x, y, h, n;
      s >> x >> y >> h >> n;
      nav_msgs::Path m;
      m.header.frame_id = "map";
      std::vector<std::vector<int>> in;
      for (int i = 0; i < n; i++)
      {
        int a, b, k;
        s >> a >> b >> k;
        in.push_back({a, b, k, 0});
        geometry_msgs::PoseStamped q;
        q.pose.position.x = a * U; q.pose.position.y = b * U;
        q.pose.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0, 0, 1), yawOf(k)));
        m.poses.push_back(q);
      }
      geometry_msgs::Pose rp;
      rp.position.x = x * U; rp.position.y = y * U;
      rp.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0, 0, 1), yawOf(h)));
      planner_cspace::GridAstar<3, 2>::Vec g(-7, -7, -7);
      const bool ok = p->process(rp, cm, info, m, g);
      bool exact = true;
      for (const auto& q : p->getPreservedPath().poses)
        if (std::abs(q.pose.position.x / U - std::llround(q.pose.position.x / U)) > 1e-6 || std::abs(q.pose.position.y / U - std::llround(q.pose.position.y / U)) > 1e-6 ||
            q.header.frame_id != "map") exact = false;
      if (ok && p->getPreservedPath().header.frame_id != "map") exact = false;
      vj::Ev("pred").i("x", x).i("y", y).i("h", h).aa("in", in).b("ok", ok).b("exact", exact).a("cell", std::vector<int>{g[0], g[1], g[2]})
          .aa("pres", kept()).i("len", vj::sc(p->getPreservedPathLength(), 1600));
    }
    else if (op == "clear")
    {
      p->clear();
      vj::Ev("clear").aa("pres", kept()).i("len", vj::sc(p->getPreservedPathLength(), 1600));
    }
    else return 3;
  }
  fflush(vj::out());
  return 0;
}
