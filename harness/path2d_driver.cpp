// Runs trajectory_tracker::Path2D and the line helpers on integer geometry (1 unit = 1/16 m, headings k/16 turn).
#include <trajectory_tracker/path2d.h>
#include "jout.h"
using namespace trajectory_tracker;
static const double U = 1.0 / 16;
static double yawOf(int k) { double y = k * M_PI / 8; while (y > M_PI) y -= 2 * M_PI; while (y <= -M_PI) y += 2 * M_PI; return y; }
static int kOf(double y) { return static_cast<int>(((std::llround(y / (M_PI / 8)) % 16) + 16) % 16); }
int main(int argc, char** argv)
{
  if (argc < 3) return 3;
  std::ifstream is(argv[1]);
  vj::open(argv[2]);
  Path2D p;
  std::string line;
  while (std::getline(is, line))
  {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "begin") { p.clear(); vj::Ev("begin"); }
    else if (op == "path" || op == "msg" || op == "msgv")
    {
      // path/msg: n, then x y k v per pose; msg: preceded by eps (half units)
      double eps = 1e-6;
      int epsi = 0;
      if (op != "path") { s >> epsi; if (epsi > 0) eps = (epsi + 0.5) * U; }
      int n;
      s >> n;
      std::vector<std::vector<int>> in, out;
      nav_msgs::Path m;
      trajectory_tracker_msgs::PathWithVelocity mv;
      p.clear();
      for (int i = 0; i < n; i++)
      {
        int x, y, k, v;
        s >> x >> y >> k >> v;
        in.push_back({x, y, k, v});
        geometry_msgs::PoseStamped ps;
        ps.pose.position.x = x * U; ps.pose.position.y = y * U; ps.pose.position.z = 3;
        ps.pose.orientation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0, 0, 1), yawOf(k)));
        trajectory_tracker_msgs::PoseStampedWithVelocity pv;
        pv.pose = ps.pose;
        pv.linear_velocity.x = v * U;
        m.poses.push_back(ps);
        mv.poses.push_back(pv);
        if (op == "path") p.push_back(Pose2D(Eigen::Vector2d(x * U, y * U), yawOf(k), v * U));
      }
      if (op == "msg") p.fromMsg(m, eps);
      if (op == "msgv") p.fromMsg(mv, eps);
      // out through toMsg
      trajectory_tracker_msgs::PathWithVelocity o;
      o.header.frame_id = "f";
      p.toMsg(o);
      nav_msgs::Path o2;
      o2.header.frame_id = "f";
      p.toMsg(o2);
      bool same = o.poses.size() == o2.poses.size() && o.poses.size() == p.size();
      for (size_t i = 0; i < o.poses.size(); i++)
      {
        const auto& q = o.poses[i];
        out.push_back({static_cast<int>(std::llround(q.pose.position.x / U)), static_cast<int>(std::llround(q.pose.position.y / U)), kOf(tf2::getYaw(q.pose.orientation)),
                       std::isnan(q.linear_velocity.x) ? -99 : static_cast<int>(std::llround(q.linear_velocity.x / U))});
        if (same && (o2.poses[i].pose.position.x != q.pose.position.x || o2.poses[i].pose.position.y != q.pose.position.y ||
                     std::abs(o2.poses[i].pose.orientation.z - q.pose.orientation.z) > 1e-6 || q.header.frame_id != "f" || o2.poses[i].header.frame_id != "f")) same = false;
        if (std::abs(q.pose.position.x - out.back()[0] * U) > 1e-9 || std::abs(q.pose.position.y - out.back()[1] * U) > 1e-9) same = false;
      }
      vj::Ev("path").s("how", op).i("eps", epsi).aa("in", in).aa("out", out).b("same", same).i("len", vj::sc(p.length(), 1600));
    }
    else if (op == "lg" || op == "goals")
    {
      int b, e, sb, ip, eps;
      s >> b >> e >> sb >> ip >> eps;
      const double ep = eps == 0 ? 1e-6 : (eps + 0.5) * U * U;
      if (op == "lg")
      {
        const auto it = eps == 0 ? p.findLocalGoal(p.cbegin() + b, p.cbegin() + e, sb, ip) : p.findLocalGoal(p.cbegin() + b, p.cbegin() + e, sb, ip, ep);
        vj::Ev("lg").i("b", b).i("e", e).b("sb", sb).b("ip", ip).i("eps", eps).i("r", it - p.cbegin());
      }
      else
      {
        std::vector<int> r;
        for (auto& it : p.enumerateLocalGoals(p.cbegin() + b, p.cbegin() + e, sb, ip, ep)) r.push_back(it - p.cbegin());
        vj::Ev("goals").i("b", b).i("e", e).b("sb", sb).b("ip", ip).i("eps", eps).a("r", r);
      }
    }
    else if (op == "near")
    {
      int b, e, tx, ty, rg;
      s >> b >> e >> tx >> ty >> rg;
      const Eigen::Vector2d t(tx * U, ty * U);
      const auto r = p.findNearestWithDistance(p.cbegin() + b, p.cbegin() + e, t, rg * U);
      const auto r2 = p.findNearest(p.cbegin() + b, p.cbegin() + e, t, rg * U);
      vj::Ev("near").i("b", b).i("e", e).i("x", tx).i("y", ty).i("range", rg).i("r", r.first - p.cbegin()).i("r2", r2 - p.cbegin())
          .i("d", r.second > 1e6 ? -1 : vj::sc(r.second, 1600));
    }
    else if (op == "rem")
    {
      int b, nr, e, tx, ty;
      s >> b >> nr >> e >> tx >> ty;
      vj::Ev("rem").i("b", b).i("n", nr).i("e", e).i("x", tx).i("y", ty)
          .i("d", vj::sc(p.remainedDistance(p.cbegin() + b, p.cbegin() + nr, p.cbegin() + e, Eigen::Vector2d(tx * U, ty * U)), 1600));
    }
    else if (op == "eta")
    {
      int b, e, lin, ang, init;
      s >> b >> e >> lin >> ang >> init;
      std::vector<long long> r;
      for (double v : p.getEstimatedTimeOfArrivals(p.cbegin() + b, p.cbegin() + e, lin * U, ang * M_PI / 8, init * 0.001)) r.push_back(vj::sc(v, 1000));
      vj::Ev("eta").i("b", b).i("e", e).i("lin", lin).i("ang", ang).i("init", init).a("r", r);
    }
    else if (op == "curv")
    {
      int b, e, tx, ty, rg;
      s >> b >> e >> tx >> ty >> rg;
      vj::Ev("curv").i("b", b).i("e", e).i("x", tx).i("y", ty).i("range", rg)
          .i("c", vj::sc(p.getCurvature(p.cbegin() + b, p.cbegin() + e, Eigen::Vector2d(tx * U, ty * U), rg * U) * U, 10000));
    }
    else if (op == "arc")
    {
      // two poses on an arc of given radius (units, signed) and angle (1/1000 rad), from a start pose
      int x, y, k, rad, ang, back;
      s >> x >> y >> k >> rad >> ang >> back;
      const double th = yawOf(k), a = ang * 0.001 * (back ? -1 : 1) * (rad < 0 ? -1 : 1), R = rad * U;
      Path2D q;
      q.push_back(Pose2D(Eigen::Vector2d(x * U, y * U), th, 0));
      q.push_back(Pose2D(Eigen::Vector2d(x * U + R * (std::sin(th + a) - std::sin(th)), y * U - R * (std::cos(th + a) - std::cos(th))), th + a, 0));
      vj::Ev("arc").i("rad", rad).i("ang", ang).i("c", vj::sc(q.getCurvature(q.cbegin(), q.cend(), Eigen::Vector2d(0, 0), 10) * U, 1e6));
    }
    else if (op == "line")
    {
      int v[6];
      for (int& c : v) s >> c;
      const Eigen::Vector2d a(v[0] * U, v[1] * U), b(v[2] * U, v[3] * U), c(v[4] * U, v[5] * U);
      vj::Ev e("line");
      e.a("v", std::vector<int>(v, v + 6)).i("sd", vj::sc(lineStripDistanceSigned(a, b, c), 1600)).i("d", vj::sc(lineStripDistance(a, b, c), 1600));
      if (v[0] != v[2] || v[1] != v[3])
      {
        const auto pr = projection2d(a, b, c);
        e.i("ld", vj::sc(lineDistance(a, b, c), 1600)).i("px", vj::sc(pr[0], 1600)).i("py", vj::sc(pr[1], 1600));
      }
    }
    else if (op == "rot")
    {
      int x, y, k, a;
      s >> x >> y >> k >> a;
      Pose2D q(Eigen::Vector2d(x * U, y * U), yawOf(k), 0);
      q.rotate(a * M_PI / 8);
      vj::Ev("rot").i("x", x).i("y", y).i("k", k).i("a", a).i("rx", vj::sc(q.pos_.x(), 1600)).i("ry", vj::sc(q.pos_.y(), 1600)).i("rk", kOf(q.yaw_))
          .b("ranged", q.yaw_ >= -1e-5 && q.yaw_ <= 2 * M_PI + 1e-5);
    }
    else return 3;
  }
  fflush(vj::out());
  return 0;
}
