// Replays operation scripts on the real cyclic vector class.
#include <cassert>
#include <unordered_map>
#include <planner_cspace/cyclic_vec.h>
#include "jout.h"
using namespace planner_cspace;
template <int DIM, int NC>
struct Runner
{
  using Vec = CyclicVecInt<DIM, NC>;
  using Vecf = CyclicVecFloat<DIM, NC>;
  Vec reg[4];
  Vec rd(std::istream& s)
  {
    Vec v;
    for (int i = 0; i < DIM; ++i)
      s >> v[i];
    return v;
  }
  std::vector<int> l(const Vec& v)
  {
    std::vector<int> r;
    for (int i = 0; i < DIM; ++i)
      r.push_back(v[i]);
    return r;
  }
  void cyc(Vec& v, const Vec& res, bool variadic, bool uns)
  {
    if (!variadic)
    {
      uns ? v.cycleUnsigned(res) : v.cycle(res);
      return;
    }
    if (DIM - NC == 1)
      uns ? v.cycleUnsigned(res[DIM - 1]) : v.cycle(res[DIM - 1]);
    else
      cyc2(v, res, uns, std::integral_constant<bool, DIM - NC == 2>());
  }
  void cyc2(Vec& v, const Vec& res, bool uns, std::true_type)
  {
    uns ? v.cycleUnsigned(res[DIM - 2], res[DIM - 1]) : v.cycle(res[DIM - 2], res[DIM - 1]);
  }
  void cyc2(Vec& v, const Vec& res, bool uns, std::false_type)
  {
    uns ? v.cycleUnsigned(res) : v.cycle(res);
  }
  void exec(const std::string& line)
  {
    std::istringstream s(line);
    std::string op;
    s >> op;
    int r, d, a, b;
    if (op == "set")
    {
      s >> r;
      reg[r] = rd(s);
      vj::Ev("set").i("r", r).a("v", l(reg[r]));
    }
    else if (op == "add" || op == "sub" || op == "mul")
    {
      s >> d >> a >> b;
      reg[d] = op == "add" ? reg[a] + reg[b] : op == "sub" ? reg[a] - reg[b] : reg[a] * reg[b];
      vj::Ev(op).i("d", d).i("a", a).i("b", b).a("v", l(reg[d]));
    }
    else if (op == "cycle" || op == "cycleu")
    {
      int variadic;
      s >> r >> variadic;
      const Vec res = rd(s);
      cyc(reg[r], res, variadic, op == "cycleu");
      vj::Ev(op).i("r", r).a("res", l(res)).a("v", l(reg[r]));
    }
    else if (op == "exceed")
    {
      s >> r;
      const Vec lim = rd(s);
      vj::Ev("exceed").i("r", r).a("lim", l(lim)).b("res", reg[r].isExceeded(lim));
    }
    else if (op == "eq")
    {
      s >> a >> b;
      std::unordered_map<Vec, int, Vec> m;
      m[reg[a]] = 1;
      vj::Ev("eq").i("a", a).i("b", b).b("eq", reg[a] == reg[b]).b("ne", reg[a] != reg[b]).b("heq", Vec()(reg[a]) == Vec()(reg[b])).b("found", m.find(reg[b]) != m.end());
    }
    else if (op == "len")
    {
      s >> r;
      vj::Ev("len").i("r", r).i("sq", reg[r].sqlen()).i("len", vj::sc(reg[r].len(), 100)).i("norm", vj::sc(reg[r].norm(), 100));
    }
    else if (op == "prod")
    {
      s >> a >> b;
      vj::Ev("prod").i("a", a).i("b", b).i("cross", vj::sc(reg[a].cross2d(reg[b]), 1)).i("dot", vj::sc(reg[a].dot2d(reg[b]), 1));
    }
    else if (op == "conv")
    {
      Vec q = rd(s);
      Vecf f;
      for (int i = 0; i < DIM; ++i)
        f[i] = q[i] / 4.0f;
      const Vec v(f);
      const Vecf back(v);
      std::vector<long long> bk;
      for (int i = 0; i < DIM; ++i)
        bk.push_back(vj::sc(back[i], 4));
      vj::Ev("conv").a("q", l(q)).a("v", l(v)).a("back", bk);
    }
    else if (op == "line")
    {
      int p;
      s >> p >> a >> b;
      if (reg[a][0] == reg[b][0] && reg[a][1] == reg[b][1])
        return;
      // plane copies (distances are plane geometry)
      CyclicVecFloat<2, 2> pf(static_cast<float>(reg[p][0]), static_cast<float>(reg[p][1])),
          af(static_cast<float>(reg[a][0]), static_cast<float>(reg[a][1])), bf(static_cast<float>(reg[b][0]), static_cast<float>(reg[b][1]));
      vj::Ev("line").i("p", p).i("a", a).i("b", b).i("len", vj::sc((bf - af).len(), 100)).i("line", vj::sc(pf.distLine2d(af, bf), 100)).i("seg", vj::sc(pf.distLinestrip2d(af, bf), 100));
    }
    else if (op == "rot90" || op == "rot")
    {
      int x, y, th, k;
      s >> x >> y >> th >> k;
      CyclicVecFloat<3, 2> v(static_cast<float>(x), static_cast<float>(y), th / 1000.0f);
      const double ang = op == "rot90" ? k * M_PI / 2 : k / 1000.0;
      const double len0 = v.len();
      v.rotate(ang);
      if (op == "rot90")
        vj::Ev("rot90").i("x", x).i("y", y).i("th", th).i("k", k).i("rx", vj::sc(v[0], 1000)).i("ry", vj::sc(v[1], 1000)).i("rth", vj::sc(v[2], 1000));
      else
        vj::Ev("rot").i("x", x).i("y", y).i("k", k).i("rx", vj::sc(v[0], 1000)).i("ry", vj::sc(v[1], 1000)).i("len", vj::sc(len0, 100)).i("rlen", vj::sc(v.len(), 100)).i("cos", vj::sc(cos(ang), 1000)).i("sin", vj::sc(sin(ang), 1000));
    }
    else
      exit(5);
  }
};
template <int DIM, int NC>
void run(std::istream& in, std::string& line)
{
  Runner<DIM, NC> r;
  vj::Ev("begin").i("dim", DIM).i("nc", NC);
  while (std::getline(in, line))
  {
    if (line.compare(0, 5, "begin") == 0)
      return;
    r.exec(line);
  }
  line.clear();
}
int main(int argc, char** argv)
{
  std::ifstream in(argv[1]);
  vj::open(argv[2]);
  std::string line;
  std::getline(in, line);
  while (!line.empty())
  {
    std::istringstream s(line);
    std::string b, k;
    s >> b >> k;
    if (k == "32")
      run<3, 2>(in, line);
    else if (k == "20")
      run<2, 0>(in, line);
    else if (k == "22")
      run<2, 2>(in, line);
    else if (k == "31")
      run<3, 1>(in, line);
    else if (k == "43")
      run<4, 3>(in, line);
    else
      exit(6);
  }
  fclose(vj::out());
  return 0;
}
