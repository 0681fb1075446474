// Runs the real grid search on recorded problems.
#include <cassert>
#include <cstring>
#include <limits>
#include <functional>
#include <omp.h>
#include <planner_cspace/grid_astar.h>
#include "jout.h"
using namespace planner_cspace;
struct Problem
{
  std::string kind;
  int size[3];
  std::vector<std::array<int, 3>> offs;
  std::vector<std::vector<int>> costs;  // [cell][offset]; -1 forbidden, 1000000 infinite
  std::vector<int> h;
  bool per_cell_list;
};
static int rdi(std::istream& s)
{
  int v;
  s >> v;
  return v;
}
template <int DIM, int NC>
class Model : public GridAstarModelBase<DIM, NC>
{
public:
  using Base = GridAstarModelBase<DIM, NC>;
  using Vec = typename Base::Vec;
  using VecWithCost = typename Base::VecWithCost;
  const Problem* p;
  std::vector<Vec> list;
  std::vector<std::vector<Vec>> cell_list;
  int idx(const Vec& v) const
  {
    int c[3] = {0, 0, 0};
    for (int i = 0; i < DIM; ++i)
      c[i] = v[i];
    return (c[0] * p->size[1] + c[1]) * p->size[2] + c[2];
  }
  void set(const Problem* pr)
  {
    p = pr;
    list.clear();
    for (auto& o : p->offs)
    {
      Vec v;
      for (int i = 0; i < DIM; ++i)
        v[i] = o[i];
      list.push_back(v);
    }
    cell_list.assign(p->costs.size(), std::vector<Vec>());
    for (size_t i = 0; i < p->costs.size(); ++i)
      for (size_t o = 0; o < p->offs.size(); ++o)
        if (p->costs[i][o] >= 0)
          cell_list[i].push_back(list[o]);
  }
  float cost(const Vec& cur, const Vec& next, const std::vector<VecWithCost>&, const Vec&) const override
  {
    const int i = idx(cur);
    for (size_t o = 0; o < list.size(); ++o)
    {
      Vec n = cur + list[o];
      for (int k = NC; k < DIM; ++k)
        n[k] = ((n[k] % p->size[k]) + p->size[k]) % p->size[k];
      bool same = true;
      for (int k = 0; k < DIM; ++k)
        same &= n[k] == next[k];
      if (same)
      {
        const int c = p->costs[i][o];
        return c == 1000000 ? std::numeric_limits<float>::max() : c;
      }
    }
    return -1;
  }
  float costEstim(const Vec& cur, const Vec&) const override
  {
    const int v = p->h[idx(cur)];
    return v >= 1000000 ? std::numeric_limits<float>::max() : v;
  }
  const std::vector<Vec>& searchGrids(const Vec& cur, const std::vector<VecWithCost>&, const Vec&) const override
  {
    return p->per_cell_list ? cell_list[idx(cur)] : list;
  }
};
template <int DIM, int NC>
void run(std::istream& in, Problem& pr, std::string& line)
{
  using As = GridAstar<DIM, NC>;
  using Vec = typename As::Vec;
  Vec sz;
  for (int i = 0; i < DIM; ++i)
    sz[i] = pr.size[i];
  static std::unique_ptr<As> as;  // kept across problems: history
  if (!as || (pr.size[0] + pr.size[1]) % 5 == 0)
    as.reset(new As());
  as->reset(sz);
  auto* mm = new Model<DIM, NC>();
  typename GridAstarModelBase<DIM, NC>::Ptr model(mm);
  mm->set(&pr);
  auto l3 = [](const Vec& v)
  {
    std::vector<int> r(3, 0);
    for (int i = 0; i < DIM; ++i)
      r[i] = v[i];
    return r;
  };
  while (std::getline(in, line))
  {
    if (line.compare(0, 5, "begin") == 0)
      return;
    std::istringstream s(line);
    std::string op;
    s >> op;  // search batch threads leave best interval(0: every loop, -1: never) abort_after nstart starts.. goal
    const int batch = rdi(s), threads = rdi(s), leave = rdi(s), best = rdi(s), interval = rdi(s), abort_after = rdi(s), ns = rdi(s);
    std::vector<typename As::VecWithCost> ss;
    std::vector<std::vector<int>> starts;
    bool eq = true;
    for (int i = 0; i < ns; ++i)
    {
      Vec v;
      std::vector<int> l(3, 0);
      for (int k = 0; k < 3; ++k)
        l[k] = rdi(s);
      for (int k = 0; k < DIM; ++k)
        v[k] = l[k];
      const int c = rdi(s);
      if (c != 0)
        eq = false;
      ss.emplace_back(v, static_cast<float>(c));
      starts.push_back(l);
    }
    Vec g;
    std::vector<int> gl(3, 0);
    for (int k = 0; k < 3; ++k)
      gl[k] = rdi(s);
    for (int k = 0; k < DIM; ++k)
      g[k] = gl[k];
    as->setSearchTaskNum(batch);
    omp_set_num_threads(threads);
    std::list<Vec> path;
    int calls = 0;
    bool aborted = false;
    std::vector<std::list<Vec>> prog;
    auto cb = [&](const std::list<Vec>& p, const SearchStats&)
    {
      if (prog.size() < 6)
        prog.push_back(p);
      ++calls;
      if (abort_after > 0 && calls >= abort_after)
      {
        aborted = true;
        return false;
      }
      return true;
    };
    const bool ok = as->search(ss, g, path, model, cb, leave, interval < 0 ? std::numeric_limits<float>::max() : 0.0f, best);
    std::vector<std::vector<int>> pl;
    for (auto& v : path)
      pl.push_back(l3(v));
    std::string ps = "[";
    for (size_t i = 0; i < prog.size(); ++i)
    {
      ps += i ? ",[" : "[";
      bool f = true;
      for (auto& v : prog[i])
      {
        auto a = l3(v);
        ps += (f ? "[" : ",[") + std::to_string(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]) + "]";
        f = false;
      }
      ps += "]";
    }
    ps += "]";
    vj::Ev("search").i("batch", batch).i("threads", threads).i("leave", leave).b("best", best && ns > 0).b("ok", ok).b("aborted", aborted).b("eqcost", eq).aa("starts", starts).a("goal", gl).aa("path", pl).raw("progress", ps);
  }
  line.clear();
}
int main(int argc, char** argv)
{
  std::ifstream in(argv[1]);
  vj::open(argv[2]);
  std::string line;
  std::getline(in, line);
  while (!line.empty())
  {
    std::istringstream s(line);
    std::string b;
    Problem pr;
    s >> b >> pr.kind;
    for (int i = 0; i < 3; ++i)
      pr.size[i] = rdi(s);
    pr.per_cell_list = rdi(s);
    const int no = rdi(s);
    for (int i = 0; i < no; ++i)
    {
      std::array<int, 3> o;
      for (int k = 0; k < 3; ++k)
        o[k] = rdi(s);
      pr.offs.push_back(o);
    }
    const int n = pr.size[0] * pr.size[1] * pr.size[2];
    pr.costs.assign(n, std::vector<int>(no));
    for (auto& r : pr.costs)
      for (auto& c : r)
        c = rdi(s);
    pr.h.resize(n);
    for (auto& x : pr.h)
      x = rdi(s);
    vj::Ev("begin").i("nc", pr.kind == "32" ? 2 : pr.kind == "20" ? 0 : 2).a("size", std::vector<int>(pr.size, pr.size + 3)).aa("offs", pr.offs).aa("costs", pr.costs).a("h", pr.h);
    if (pr.kind == "32")
      run<3, 2>(in, pr, line);
    else if (pr.kind == "20")
      run<2, 0>(in, pr, line);
    else if (pr.kind == "22")
      run<2, 2>(in, pr, line);
    else
      exit(6);
  }
  fclose(vj::out());
  return 0;
}
