// Replays observation histories on the real remembered-costmap class.
#include <cassert>
#include <planner_cspace/bbf.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#include "jout.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
using Vec = CostmapBBF::Vec;
static float odds(int k)
{
  return std::pow(3.0, k / 4.0);
}
static long long lev(float o)
{
  return vj::sc(4.0 * std::log(static_cast<double>(o)) / std::log(3.0), 1000.0);
}
int main(int argc, char** argv)
{
  std::ifstream in(argv[1]);
  vj::open(argv[2]);
  std::string line;
  std::shared_ptr<CostmapBBF> b;
  int w = 1, h = 1;
  while (std::getline(in, line))
  {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "begin")
    {
      b.reset(new CostmapBBFImpl());
      b->reset(Vec(1, 1, 1));
      w = h = 1;
      vj::Ev("begin");
    }
    else if (op == "reset")
    {
      s >> w >> h;
      b->reset(Vec(w, h, 1));
      vj::Ev("reset").a("size", std::vector<int>{w, h});
    }
    else if (op == "clear")
    {
      b->clear();
      vj::Ev("clear");
    }
    else if (op == "write")
    {
      b->updateCostmap();
      vj::Ev("write");
    }
    else if (op == "remember")
    {
      int cx, cy, cz, hit, miss, rmin, rmax;
      s >> cx >> cy >> cz >> hit >> miss >> rmin >> rmax;
      BlockMemGridmap<char, 3, 2, 0x40> cm(Vec(w, h, 2));
      cm.clear(-1);
      std::vector<int> obs;
      for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
          int v;
          s >> v;
          cm[Vec(x, y, 0)] = v;
          cm[Vec(x, y, 1)] = (v == 100 ? 0 : 100);  // must not be looked at
          obs.push_back(v);
        }
      b->remember(&cm, Vec(cx, cy, cz), odds(hit), odds(miss), rmin, rmax);
      vj::Ev("remember").a("c", std::vector<int>{cx, cy}).i("hit", hit).i("miss", miss).i("rmin", rmin).i("rmax", rmax).a("obs", obs);
    }
    else if (op == "costs")
    {
      std::vector<int> d;
      for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
          d.push_back(b->getCost(Vec(x, y, (x + y) & 1)));
      vj::Ev("costs").a("d", d);
    }
    else if (op == "each")
    {
      std::vector<long long> x, y, z, v;
      b->forEach([&](const Vec& p, bbf::BinaryBayesFilter& f)
                 { x.push_back(p[0]); y.push_back(p[1]); z.push_back(p[2]); v.push_back(lev(f.get())); });
      vj::Ev("each").a("x", x).a("y", y).a("z", z).a("b", v);
    }
    else if (op == "filter")
    {
      int from, ev;
      s >> from >> ev;
      bbf::BinaryBayesFilter f(odds(from));
      const float r = f.update(odds(ev));
      vj::Ev("filter").i("from", from).i("ev", ev).i("res", lev(f.get())).i("ret", lev(r)).i("pct", std::lround(f.getNormalizedProbability() * 100.0));
    }
    else if (op == "noop")
    {
      CostmapBBFNoOp n;
      int visited = 0;
      n.reset(Vec(3, 3, 1));
      BlockMemGridmap<char, 3, 2, 0x40> cm(Vec(3, 3, 1));
      cm.clear(100);
      n.remember(&cm, Vec(1, 1, 0), 2.0, 0.5, 0, 3);
      n.updateCostmap();
      n.forEach([&](const Vec&, bbf::BinaryBayesFilter&)
                { ++visited; });
      vj::Ev("noop").i("cost", n.getCost(Vec(1, 1, 0))).i("visited", visited);
      n.clear();
    }
    else
      return 5;
  }
  fclose(vj::out());
  return 0;
}
