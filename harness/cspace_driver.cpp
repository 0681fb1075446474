// C07: the position-and-heading model and search of the real code on small maps.
#include <planner_cspace/grid_astar.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <memory>
#include <random>
#include "jout.h"
using namespace planner_cspace;
using namespace planner_cspace::planner_3d;
typedef CyclicVecInt<3, 2> Vec;
typedef CyclicVecFloat<3, 2> Vecf;
typedef GridAstar<3, 2> Astar;
typedef std::vector<long long> V;
int N, W, H, range_, er10, ir10, lr;
std::mt19937 rng;
int R(int a, int b) { return a + static_cast<int>(rng() % (b - a + 1)); }
Astar::Gridmap<char, 0x40> cm, hyst, rough;
Astar::Gridmap<float> cache;
std::shared_ptr<GridAstarModel3D> model;
CostCoeff cc;
Vecf coef;
V v3(const Vec& v) { return V{ v[0], v[1], v[2] }; }
long long cl(float c)
{
  if (std::isnan(c)) return -2;
  if (c < 0) return c == -1 ? -1 : -3;
  return c * 10000.0 > 2e8 ? 200000000LL : vj::sc(c, 10000);
}
int cell()
{
  static const int v[] = { 0, 0, 0, 1, 30, 60, 99, 99 };
  return v[R(0, 7)];
}
void cost(const Vec& cur, const Vec& next, const std::vector<Astar::VecWithCost>& ss, const Vec& goal)
{
  const float c = model->cost(cur, next, ss, goal);
  vj::Ev("cost").a("cur", v3(cur)).a("next", v3(next)).i("c", cl(c));
}
Vec rndPose() { return Vec(R(0, W - 1), R(0, H - 1), R(0, N - 1)); }
int main(int argc, char** argv)
{
  vj::open(argv[2]);
  std::ifstream is(argv[1]);
  std::string line;
  std::vector<Astar::VecWithCost> ss;
  while (std::getline(is, line))
  {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "begin")  // begin N W H range er10 ir10 resmm rmin1000 asp100 c0 c2 lr seed lethal(1/1000) pillars hyst
    {
      int resmm, rmin, asp, c0, c2, seed, lethal, pillars, hy;
      s >> N >> W >> H >> range_ >> er10 >> ir10 >> resmm >> rmin >> asp >> c0 >> c2 >> lr >> seed >> lethal >> pillars >> hy;
      rng.seed(seed);
      const double res = resmm / 1000.0;
      costmap_cspace_msgs::MapMetaData3D mi;
      mi.linear_resolution = res; mi.angular_resolution = 2 * M_PI / N; mi.angle = N; mi.width = W; mi.height = H;
      cm.reset(Vec(W, H, N)); hyst.reset(Vec(W, H, N)); rough.reset(Vec(W, H, 1)); cache.reset(Vec(W, H, 1));
      std::vector<int> data(W * H * N);
      for (auto& d : data) d = R(0, 999) < lethal ? 100 : cell();
      for (int i = 0; i < pillars; i++)
      {
        const int x = R(0, W - 1), y = R(0, H - 1), t = R(0, N - 1), len = R(1, N);
        for (int k = 0; k < len; k++) data[(y * W + x) * N + (t + k) % N] = 100;
      }
      cm.clear(0); hyst.clear(0); rough.clear(0); cache.clear(0);
      for (int y = 0; y < H; y++) for (int x = 0; x < W; x++)
      {
        int m = 100;
        for (int k = 0; k < N; k++) { const int v = data[(y * W + x) * N + k]; cm[Vec(x, y, k)] = v; hyst[Vec(x, y, k)] = R(0, 100); m = std::min(m, v); }
        rough[Vec(x, y, 0)] = m;
      }
      cc = CostCoeff();
      cc.weight_decel_ = R(0, 5) / 10.0; cc.weight_backward_ = R(0, 9) / 10.0; cc.weight_ang_vel_ = 1; cc.weight_costmap_ = R(0, 50) / 10.0;
      cc.weight_costmap_turn_ = R(0, 10) / 10.0; cc.weight_costmap_turn_heuristics_ = R(0, 1) * 1.0; cc.weight_remembered_ = 0; cc.weight_hysteresis_ = 5;
      cc.in_place_turn_ = R(0, 30) / 10.0; cc.hysteresis_max_dist_ = 0.1; cc.hysteresis_expand_ = 0.1; cc.min_curve_radius_ = rmin / 1000.0 * res;
      cc.max_vel_ = 0.3; cc.max_ang_vel_ = 0.6; cc.angle_resolution_aspect_ = asp / 100.0; cc.turn_penalty_cost_threshold_ = R(0, 1) * 50;
      coef = Vecf(c0 / 10000.0f, c0 / 10000.0f, c2 / 10000.0f);
      model.reset(new GridAstarModel3D(mi, coef, lr, cache, cm, hyst, rough, cc, range_, ir10 / 10.0, er10 / 10.0));
      model->enableHysteresis(hy);
      vj::Ev("begin").i("n", N).i("w", W).i("h", H).i("range", range_).i("er10", er10).i("ir10", ir10).i("rmin", rmin * 100LL).i("asp", asp)
        .i("c0", c0).i("c2", c2).i("lr", lr).a("cm", data);
    }
    else if (op == "params")  // params c0 c2 rmin1000 lr resmm
    {
      int c0, c2, rmin, resmm;
      s >> c0 >> c2 >> rmin >> lr >> resmm;
      coef = Vecf(c0 / 10000.0f, c0 / 10000.0f, c2 / 10000.0f);
      cc.min_curve_radius_ = rmin / 1000.0 * resmm / 1000.0;
      model->updateCostParameters(coef, cc, lr);
      vj::Ev("params").i("c0", c0).i("c2", c2).i("rmin", rmin * 100LL).i("lr", lr);
    }
    else if (op == "cost")  // cost <count> <edge bias>: motions offered by the model from random poses
    {
      int n, edge;
      s >> n >> edge;
      for (int i = 0; i < n; i++)
      {
        Vec p = rndPose();
        if (edge) p[R(0, 1)] = R(0, 1) ? R(0, 1) : (W < H ? W : H) - 1 - R(0, 1);
        const Vec goal = rndPose();
        ss.clear();
        ss.emplace_back(R(0, 3) ? p : rndPose());
        const auto& list = model->searchGrids(p, ss, goal);
        for (int t = 0; t < 200; t++)
        {
          Vec nx = p + list[R(0, list.size() - 1)];
          nx.cycleUnsigned(N);
          if (nx == p || nx[0] < 0 || nx[1] < 0 || nx[0] >= W || nx[1] >= H) continue;
          if (t < 60 && (cm[p] > 99 || cm[nx] > 99) && R(0, 9)) continue;
          cost(p, nx, ss, goal);
          break;
        }
      }
    }
    else if (op == "turns")
    {
      int n;
      s >> n;
      for (int i = 0; i < n; i++)
      {
        const Vec p = rndPose();
        Vec nx = p;
        nx[2] = (p[2] + R(1, N - 1)) % N;
        ss.assign(1, Astar::VecWithCost(p));
        cost(p, nx, ss, nx);
      }
    }
    else if (op == "grids")
    {
      int n;
      s >> n;
      for (int i = 0; i < n; i++)
      {
        const Vec p = rndPose();
        std::vector<V> starts, list;
        ss.clear();
        for (int k = R(1, 2); k > 0; k--) { Vec q = rndPose(); starts.push_back(v3(q)); ss.emplace_back(q); }
        const auto& l = model->searchGrids(p, ss, rndPose());
        for (int k = 0; k < 120; k++) list.push_back(v3(l[R(0, l.size() - 1)]));
        vj::Ev("grids").a("s", v3(p)).aa("starts", starts).aa("list", list);
      }
    }
    else if (op == "estim")
    {
      int n;
      s >> n;
      for (int i = 0; i < n; i++)
      {
        const Vec p = rndPose(), g = rndPose();
        const float v = R(0, 5) == 0 ? std::numeric_limits<float>::max() : R(0, 100000) / 10000.0f;
        float& cv = cache[Vec(p[0], p[1], 0)];
        const float old = cv;
        cv = v;
        vj::Ev("estim").a("cur", v3(p)).a("goal", v3(g)).i("cache", cl(v)).i("c", cl(model->costEstim(p, g)));
        cv = old;
      }
    }
    else if (op == "search")
    {
      int n;
      s >> n;
      Astar as(Vec(W, H, N));
      as.setSearchTaskNum(1);
      for (int i = 0; i < n; i++)
      {
        std::vector<V> starts, path, inter;
        ss.clear();
        for (int k = R(1, 3) / 2 + 1; k > 0; k--)
        {
          Vec q = rndPose();
          for (int t = 0; t < 50 && cm[q] > 99; t++) q = rndPose();
          starts.push_back(v3(q));
          ss.emplace_back(q);
        }
        Vec goal = rndPose();
        for (int t = 0; t < 50 && cm[goal] > 99; t++) goal = rndPose();
        for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) cache[Vec(x, y, 0)] = std::hypot(x - goal[0], y - goal[1]) * coef[0];
        std::list<Vec> pl;
        const bool found = as.search(ss, goal, pl, model, [](const std::list<Vec>&, const SearchStats&) { return true; }, 0, 1000.0);
        if (found)
        {
          for (const auto& p : pl) path.push_back(v3(p));
          for (const auto& p : model->interpolatePath(pl)) inter.push_back(V{ vj::sc(p[0], 1000), vj::sc(p[1], 1000), vj::sc(p[2], 1000) });
        }
        vj::Ev("search").aa("starts", starts).a("goal", v3(goal)).b("found", found).aa("path", path).aa("inter", inter);
      }
    }
  }
}
