// C08: histories of cost changes and incremental updates on the real distance map.
#include <planner_cspace/grid_astar.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#include <planner_cspace/planner_3d/distance_map.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <random>
#include "jout.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef GridAstar<3, 2> Astar;
typedef Astar::Vec Vec;
std::mt19937 rng;
int R(int a, int b) { return a + static_cast<int>(rng() % (b - a + 1)); }
int main(int argc, char** argv)
{
  vj::open(argv[2]);
  std::ifstream is(argv[1]);
  std::string line;
  Astar::Gridmap<char, 0x80> rough, hy;
  Astar::Gridmap<char, 0x40> cm;
  std::shared_ptr<CostmapBBFImpl> impl(new CostmapBBFImpl());
  std::unique_ptr<DistanceMap> dm;
  GridAstarModel3D::Ptr model;
  int w = 0, h = 0, dens = 0, ec10000 = 0, res1000 = 0, wc = 0, wh = 0, range = 0, lr = 0, lc = 0, tasks = 1;
  bool bbf = false;
  Vec s(0, 0, 0), g(0, 0, 0);
  auto cell = [&] { return R(0, 99) < dens ? 100 : (R(0, 1) ? 0 : R(0, 99)); };
  auto setup = [&]
  {
    const Astar::Vecf ec(ec10000 / 10000.0f, ec10000 / 10000.0f, 0.2f);
    costmap_cspace_msgs::MapMetaData3D mi;
    mi.width = w; mi.height = h; mi.angle = 4; mi.linear_resolution = res1000 / 1000.0; mi.angular_resolution = M_PI / 2;
    CostCoeff cc = CostCoeff();
    cc.weight_costmap_ = wc / 10.0; cc.weight_remembered_ = wh / 10.0;
    dm->setParams(cc, tasks);
    cm.reset(Vec(w, h, 4)); hy.reset(Vec(w, h, 4)); rough.reset(Vec(w, h, 1));
    cm.clear(0); hy.clear(0); rough.clear(0);
    impl->reset(Vec(w, h, 1));
    impl->updateCostmap();
    model.reset(new GridAstarModel3D(mi, ec, lr, dm->gridmap(), cm, hy, rough, cc, range));
    DistanceMap::Params p{ .euclid_cost = ec, .range = range, .local_range = lr, .longcut_range = lc, .size = Vec(w, h, 1), .resolution = res1000 / 1000.0f };
    dm->init(model, p);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) rough[Vec(x, y, 0)] = cell();
  };
  auto table = [&](const char* how)
  {
    std::vector<long long> G, C, B;
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++)
      {
        const Vec q(x, y, 0);
        const float v = (*dm)[q];
        G.push_back(std::isnan(v) ? -999999999 : v > 9e4 ? (v == std::numeric_limits<float>::max() ? 1000000000LL : 999999999LL) : std::lround(static_cast<double>(v) * 10000));
        C.push_back(rough[q]);
        B.push_back(bbf ? impl->getCost(q) : 0);
      }
    vj::Ev("table").s("how", how).a("s", std::vector<int>{ s[0], s[1] }).a("e", std::vector<int>{ g[0], g[1] }).a("g", G).a("cm", C).a("bbf", B);
  };
  while (std::getline(is, line))
  {
    std::istringstream st(line);
    std::string op;
    st >> op;
    if (op == "begin")  // begin w h ec10000 res1000 wc wh range lr lc tasks dens bbf seed
    {
      int seed;
      st >> w >> h >> ec10000 >> res1000 >> wc >> wh >> range >> lr >> lc >> tasks >> dens >> bbf >> seed;
      rng.seed(seed);
      CostmapBBF::Ptr b = impl;
      if (!bbf) b.reset(new CostmapBBFNoOp());
      dm.reset(new DistanceMap(rough, b));
      setup();
      vj::Ev("begin").i("w", w).i("h", h).i("ec", ec10000).i("res", res1000).i("wc", wc).i("wh", wh).i("over", range + lr + lc);
    }
    else if (op == "again")  // again w h: a new map on the same object
    {
      st >> w >> h;
      setup();
      s = g = Vec(0, 0, 0);
      vj::Ev("begin").i("w", w).i("h", h).i("ec", ec10000).i("res", res1000).i("wc", wc).i("wh", wh).i("over", range + lr + lc);
    }
    else if (op == "walls")  // long obstacles
    {
      int n;
      st >> n;
      for (int k = 0; k < n; k++)
      {
        int x = R(0, w - 1), y = R(0, h - 1);
        const int len = R(2, std::max(w, h)), dx = R(0, 1), skip = R(0, len * 3);
        for (int i = 0; i < len && x < w && y < h; i++, x += dx, y += 1 - dx) if (i != skip) rough[Vec(x, y, 0)] = 100;
      }
    }
    else if (op == "ring")  // a corridor round a thick block, goal on one side, changes on both arms of the other side at once
    {
      const int cw = R(1, 2), ow = R(0, 1);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
          rough[Vec(x, y, 0)] = (x >= cw && x < w - cw && y >= ow && y < h - cw) ? 100 : 0;
      if (ow) for (int x = w / 2 - 1; x <= w / 2 + 1; x++) rough[Vec(x, 0, 0)] = 100;
      g = Vec(w / 2, h - 1, 0);
      s = Vec(R(0, 1) ? 0 : w - 1, R(0, h - 1), 0);
      dm->create(s, g);
      table("create");
      for (int k = 0; k < 3; k++)
      {
        const int y0 = R(0, 1), y1 = R(1, 2);
        for (int y = y0; y <= y1; y++)
          for (int x : { R(0, cw - 1), w - 1 - R(0, cw - 1) })
            rough[Vec(x, y, 0)] = rough[Vec(x, y, 0)] ? 0 : R(40, 100);
        dm->update(s, g, DistanceMap::Rect(Vec(0, y0, 0), Vec(w - 1, y1, 0)));
        table("update");
      }
    }
    else if (op == "create")
    {
      s = Vec(R(0, w - 1), R(0, h - 1), 0);
      g = Vec(R(0, w - 1), R(0, h - 1), 0);
      dm->create(s, g);
      table("create");
    }
    else if (op == "update")  // update size mode: change cells in a rectangle; mode 1: also move the start, 2: also move the goal, 3: put/remove a wall
    {
      int size, mode;
      st >> size >> mode;
      int x0 = R(0, w - 1), y0 = R(0, h - 1), x1 = std::min(w - 1, x0 + R(0, std::max(0, size))), y1 = std::min(h - 1, y0 + R(0, std::max(0, size)));
      if (mode == 3 && size >= 0)
      {
        if (R(0, 1)) x1 = x0; else y1 = y0;
        const int v = R(0, 1) ? 100 : 0;
        for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) rough[Vec(x, y, 0)] = v;
      }
      else if (size >= 0)
      {
        for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++) if (R(0, 2)) rough[Vec(x, y, 0)] = cell();
      }
      if (mode >= 1) s = Vec(R(0, w - 1), R(0, h - 1), 0);
      if (mode == 2) g = Vec(R(0, w - 1), R(0, h - 1), 0);
      if (bbf && size >= 0)
      {
        // what is remembered changes around some place, which the rectangle then covers too
        const int cx = R(0, w - 1), cy = R(0, h - 1), r = R(1, 4);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) cm[Vec(x, y, 0)] = R(0, 3) ? 0 : 100;
        for (int k = R(1, 3); k > 0; k--) impl->remember(&cm, Vec(cx, cy, 0), 6.0f, 0.4f, 0, r);
        x0 = std::min(x0, std::max(0, cx - r)); x1 = std::max(x1, std::min(w - 1, cx + r));
        y0 = std::min(y0, std::max(0, cy - r)); y1 = std::max(y1, std::min(h - 1, cy + r));
        impl->updateCostmap();
      }
      if (size < 0) { x0 = y0 = 1; x1 = y1 = 0; }
      dm->update(s, g, DistanceMap::Rect(Vec(x0, y0, 0), Vec(x1, y1, 0)));
      table("update");
    }
    else if (op == "outside")  // start or goal outside of the map: nothing promised until both are inside again
    {
      const Vec s0 = s;
      s = Vec(w + R(0, 3), R(0, h - 1), 0);
      dm->update(s, g, DistanceMap::Rect(Vec(1, 1, 0), Vec(0, 0, 0)));
      s = s0;
      dm->update(s, g, DistanceMap::Rect(Vec(1, 1, 0), Vec(0, 0, 0)));
      table("update");
    }
  }
  return 0;
}
