// C06/C07: motion pages, rotation tables and motion primitives of the real code.
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <planner_cspace/planner_3d/motion_cache.h>
#include <planner_cspace/planner_3d/motion_primitive_builder.h>
#include <planner_cspace/planner_3d/rotation_cache.h>
#include <memory>
#include "jout.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef CyclicVecInt<3, 2> Vec;
typedef std::vector<long long> V;
int N, range_, er10, ir10;
double res;
std::unique_ptr<MotionCache> mc;
std::unique_ptr<RotationCache> rc;
std::unique_ptr<BlockMemGridmap<char, 3, 2, 0x40>> cm;
std::vector<std::vector<Vec>> prims;
void page(int s, Vec d, bool prim, bool full)
{
  auto it = mc->find(s, d);
  bool found = it != mc->end(s);
  if (!found) { vj::Ev("nopage").i("s", s).a("d", V{ d[0], d[1], d[2] }).b("found", found); return; }
  vj::Ev e("page");
  std::vector<V> cells, im;
  for (const auto& c : it->second.getMotion()) cells.push_back(V{ c[0], c[1], c[2] });
  if (full) for (const auto& c : it->second.getInterpolatedMotion()) im.push_back(V{ vj::sc(c[0], 1000), vj::sc(c[1], 1000), vj::sc(c[2], 1000) });
  e.i("s", s).a("d", V{ d[0], d[1], d[2] }).b("prim", prim).b("full", full).b("found", found).aa("cells", cells).i("dist", vj::sc(it->second.getDistance(), 1000)).aa("im", im);
}
int main(int argc, char** argv)
{
  vj::open(argv[2]);
  std::ifstream is(argv[1]);
  std::string line;
  while (std::getline(is, line))
  {
    std::istringstream ss(line);
    std::string op;
    ss >> op;
    if (op == "begin")
    {
      int rmin1000, asp100, resmm;
      ss >> N >> range_ >> er10 >> ir10 >> resmm >> rmin1000 >> asp100;
      res = resmm / 1000.0;
      const float ares = 2 * M_PI / N;
      cm.reset(new BlockMemGridmap<char, 3, 2, 0x40>(Vec(64, 64, N)));
      if (!mc) mc.reset(new MotionCache());   // reused across configurations: reset() must forget the former one
      if (!rc) rc.reset(new RotationCache());
      mc->reset(res, ares, range_, cm->getAddressor(), ir10 / 10.0, er10 / 10.0);
      rc->reset(res, ares, range_);
      costmap_cspace_msgs::MapMetaData3D mi;
      mi.linear_resolution = res; mi.angular_resolution = ares; mi.angle = N; mi.width = mi.height = 64;
      CostCoeff cc;
      cc.min_curve_radius_ = rmin1000 / 1000.0 * res;
      cc.angle_resolution_aspect_ = asp100 / 100.0;
      prims = MotionPrimitiveBuilder::build(mi, cc, range_);
      auto r = mc->getMaxRange();
      vj::Ev("begin").i("n", N).i("range", range_).i("er10", er10).i("ir10", ir10).i("rmin", rmin1000 * 100LL).i("asp", asp100).a("reach", V{ r[0], r[1] });
    }
    else if (op == "motions")  // motions <heading> <every k-th in full> <stride> <offset>
    {
      int s, k, stride, off;
      ss >> s >> k >> stride >> off;
      int n = 0;
      for (const auto& p : prims[s])
      {
        if (p[0] == 0 && p[1] == 0) continue;
        n++;
        if (n % stride != off % stride) continue;
        page(s, Vec(p[0], p[1], (s + p[2]) % N), true, (n / stride) % k == 0);
      }
    }
    else if (op == "page")
    {
      int s, a, b, c;
      ss >> s >> a >> b >> c;
      page(s, Vec(a, b, c), false, true);
    }
    else if (op == "prims")
    {
      int s;
      ss >> s;
      std::vector<V> list;
      for (const auto& p : prims[s]) list.push_back(V{ p[0], p[1], p[2] });
      vj::Ev("prims").i("s", s).aa("list", list);
    }
    else if (op == "rot")
    {
      int s, a, b, c;
      ss >> s >> a >> b >> c;
      Vec d2(a + range_, b + range_, c);
      auto m = rc->getMotion(s, d2);
      auto r = rc->getRadiuses(s, d2);
      vj::Ev("rot").i("s", s).a("d", V{ a, b, c }).a("m", V{ vj::sc(m[0] / res, 10000), vj::sc(m[1] / res, 10000), vj::sc(m[2] / (2 * M_PI / N), 10000) })
        .i("r1", vj::sc(r.first / res, 10000)).i("r2", vj::sc(r.second / res, 10000));
    }
  }
}
