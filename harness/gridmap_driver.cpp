// Replays operation scripts on the real BlockMemGridmap and records what it does.
#include <cassert>
#include <cstring>
#include <functional>
#include <map>
#include <planner_cspace/blockmem_gridmap.h>
#include "jout.h"
using namespace planner_cspace;
template <class T, int DIM, int NC, int BW, bool VAL>
struct Runner
{
  using Map = BlockMemGridmap<T, DIM, NC, BW, VAL>;
  using Base = BlockMemGridmapBase<T, DIM, NC>;
  using Vec = CyclicVecInt<DIM, NC>;
  std::map<int, std::unique_ptr<Map>> maps;
  Vec rd(std::istream& s)
  {
    int a[3];
    s >> a[0] >> a[1] >> a[2];
    Vec v;
    for (int i = 0; i < DIM; ++i)
      v[i] = a[i];
    return v;
  }
  std::vector<int> l(const Vec& v)
  {
    std::vector<int> r(3, 0);
    for (int i = 0; i < DIM; ++i)
      r[i] = v[i];
    return r;
  }
  std::vector<int> lsz(const Vec& v)
  {
    std::vector<int> r(3, 1);
    for (int i = 0; i < DIM; ++i)
      r[i] = v[i];
    return r;
  }
  void dump(int i)
  {
    Map& m = *maps[i];
    const Map& cm = m;
    std::vector<long long> d;
    const auto sz = lsz(m.size());
    Vec p;
    for (int x = 0; x < sz[0]; ++x)
      for (int y = 0; y < sz[1]; ++y)
        for (int z = 0; z < sz[2]; ++z)
        {
          p[0] = x;
          p[1] = y;
          if (DIM > 2)
            p[2] = z;
          d.push_back(static_cast<long long>((x + y + z) & 1 ? cm[p] : m[p]));
        }
    vj::Ev("dump").i("i", i).a("d", d);
  }
  void exec(const std::string& line)
  {
    std::istringstream s(line);
    std::string op;
    int i;
    s >> op >> i;
    if (op == "reset")
    {
      const Vec sz = rd(s);
      // construction through the sized constructor or re-use of an existing map
      if (!maps.count(i))
        maps[i].reset(i % 2 ? new Map(sz) : new Map());
      maps[i]->reset(sz);
      vj::Ev("reset").i("i", i).a("size", lsz(sz)).a("rsize", lsz(maps[i]->size()));
      return;
    }
    if (op == "assign")
    {
      int j;
      s >> j;
      if (!maps.count(i))
        maps[i].reset(new Map());
      *maps[i] = *maps[j];
      vj::Ev("assign").i("i", i).i("j", j).a("rsize", lsz(maps[i]->size()));
      return;
    }
    if (!maps.count(i))
      exit(4);
    Map& m = *maps[i];
    Base& bm = m;
    if (op == "write")
    {
      const Vec p = rd(s);
      int v;
      s >> v;
      (v & 1 ? bm[p] : m[p]) = static_cast<T>(v);
      vj::Ev("write").i("i", i).a("p", l(p)).i("v", v);
    }
    else if (op == "clear")
    {
      int v;
      s >> v;
      m.clear(v);
      vj::Ev("clear").i("i", i).i("v", v);
    }
    else if (op == "clrpos")
    {
      int v;
      s >> v;
      m.clear_positive(v);
      vj::Ev("clrpos").i("i", i).i("v", v);
    }
    else if (op == "clrpart")
    {
      int v;
      s >> v;
      const Vec lo = rd(s), hi = rd(s);
      m.clear_partially(v, lo, hi);
      vj::Ev("clrpart").i("i", i).i("v", v).a("lo", l(lo)).a("hi", l(hi));
    }
    else if (op == "copy")
    {
      int j;
      s >> j;
      const Vec lo = rd(s), hi = rd(s);
      m.copy_partially(*maps[j], lo, hi);
      vj::Ev("copy").i("i", i).i("j", j).a("lo", l(lo)).a("hi", l(hi));
    }
    else if (op == "shift")
    {
      const Vec d = rd(s);
      int j;
      s >> j;
      const Vec lo = rd(s), hi = rd(s);
      m.copy_partially(d, *maps[j], lo, hi);
      vj::Ev("shift").i("i", i).a("d", l(d)).i("j", j).a("lo", l(lo)).a("hi", l(hi));
    }
    else if (op == "read")
    {
      const Vec p = rd(s);
      const Base& cb = m;
      vj::Ev("read").i("i", i).a("p", l(p)).i("v", static_cast<long long>(cb[p]));
    }
    else if (op == "valid")
    {
      const Vec p = rd(s);
      int t;
      s >> t;
      auto pl = l(p);
      vj::Ev("valid").i("i", i).a("p", pl).i("tol", t).b("b", m.validate(p, t));
    }
    else if (op == "dump")
      dump(i);
    else
      exit(5);
  }
};
template <class R>
void run(std::istream& in, std::string& line, int nc)
{
  R r;
  vj::Ev("begin").i("nc", nc);
  while (std::getline(in, line))
  {
    if (line.compare(0, 5, "begin") == 0)
      return;
    r.exec(line);
  }
  line.clear();
}
int main(int argc, char** argv)
{
  std::ifstream in(argv[1]);
  vj::open(argv[2]);
  std::string line;
  std::getline(in, line);
  while (!line.empty())
  {
    std::istringstream s(line);
    std::string b, k;
    s >> b >> k;
    if (k == "c324")
      run<Runner<char, 3, 2, 4, false>>(in, line, 2);
    else if (k == "i322v")
      run<Runner<int, 3, 2, 2, true>>(in, line, 2);
    else if (k == "f3220")
      run<Runner<float, 3, 2, 0x20, false>>(in, line, 2);
    else if (k == "c3240")
      run<Runner<char, 3, 2, 0x40, false>>(in, line, 2);
    else if (k == "c3280v")
      run<Runner<int, 3, 2, 0x80, true>>(in, line, 2);
    else if (k == "c321")
      run<Runner<char, 3, 2, 1, false>>(in, line, 2);
    else if (k == "i338")
      run<Runner<int, 3, 3, 8, false>>(in, line, 3);
    else if (k == "i304")
      run<Runner<int, 3, 0, 4, false>>(in, line, 0);
    else
      exit(6);
  }
  fclose(vj::out());
  return 0;
}
