// Drives the real two-joint model and the real search over it.
#include <cassert>
#include <cstring>
#include <limits>
#include <list>
#include <functional>
#include <planner_cspace/grid_astar.h>
#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>
#include "jout.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_2dof_serial_joints;
using Vec = CyclicVecInt<2, 0>;
using Vecf = CyclicVecFloat<2, 0>;
using Astar = GridAstar<2, 0>;
static Vec rd(std::istream& s)
{
  int a, b;
  s >> a >> b;
  return Vec(a, b);
}
static std::vector<int> l(const Vec& v)
{
  return {v[0], v[1]};
}
int main(int argc, char** argv)
{
  std::ifstream in(argv[1]);
  vj::open(argv[2]);
  std::string line;
  Astar as;
  Astar::Gridmap<char, 0x40> cm;
  GridAstarModel2DoFSerialJoint::Ptr m;
  int R = 0;
  while (std::getline(in, line))
  {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "begin")
    {
      int w0, w1, wc, range;
      s >> R >> w0 >> w1 >> wc >> range;
      cm.reset(Vec(2 * R, 2 * R));
      cm.clear(0);
      std::vector<int> g;
      for (int x = 0; x < R; ++x)
        for (int y = 0; y < R; ++y)
        {
          int v;
          s >> v;
          g.push_back(v);
          for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j)
              cm[Vec(x + i * R, y + j * R)] = v;
        }
      as.reset(Vec(2 * R, 2 * R));
      as.setQueueSizeLimit(0);
      as.setSearchTaskNum(1);
      CostCoeff cc;
      cc.weight_cost_ = wc / 10.0;
      cc.expand_ = 0;
      m.reset(new GridAstarModel2DoFSerialJoint(Vecf(w0 / 10.0f, w1 / 10.0f), R, cm, cc, range));
      vj::Ev("begin").i("R", R).a("w", std::vector<int>{w0, w1}).i("wc", wc).i("range", range).a("g", g);
      std::vector<std::vector<int>> lst;
      for (const Vec& v : m->searchGrids(Vec(0, 0), {}, Vec(1, 1)))
        lst.push_back(l(v));
      vj::Ev("list").aa("v", lst);
    }
    else if (op == "cost")
    {
      const Vec a = rd(s), b = rd(s);
      vj::Ev("cost").a("a", l(a)).a("b", l(b)).i("c", vj::sc(m->cost(a, b, {Astar::VecWithCost(a)}, b), 1000));
    }
    else if (op == "est")
    {
      const Vec a = rd(s), b = rd(s);
      vj::Ev("est").a("a", l(a)).a("b", l(b)).i("c", vj::sc(m->costEstim(a, b), 1000));
    }
    else if (op == "len")
    {
      const Vec d = rd(s);
      vj::Ev("len").a("d", l(d)).i("c", vj::sc(m->euclidCost(d), 1000));
    }
    else if (op == "search")
    {
      const Vec a = rd(s), b = rd(s);
      std::list<Vec> path;
      const bool ok = as.search({Astar::VecWithCost(a)}, b, path, m, [](const std::list<Vec>&, const SearchStats&)
                                { return true; }, 0, 1e9, false);
      std::vector<std::vector<int>> p;
      for (const Vec& v : path)
        p.push_back(l(v));
      vj::Ev("search").a("s", l(a)).a("e", l(b)).b("ok", ok).aa("path", p);
    }
    else
      return 5;
  }
  fclose(vj::out());
  return 0;
}
