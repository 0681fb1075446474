#include <cassert>
#include <limits>
#include <trajectory_tracker/basic_control.h>
#include "jout.h"
using namespace trajectory_tracker;
int main(int argc, char** argv)
{
  std::ifstream in(argv[1]);
  vj::open(argv[2]);
  std::string line;
  VelAccLimitter lim;
  while (std::getline(in, line))
  {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "begin")
    {
      lim = VelAccLimitter();
      vj::Ev("begin");
    }
    else if (op == "set" || op == "inc")
    {
      int v, vmax, acc, dt;  // v, vmax: 1/64; acc * dt / 64 is exact
      s >> v >> vmax >> acc >> dt;
      const float fv = v / 64.0f, fm = vmax / 64.0f, fa = acc, fd = dt / 64.0f;
      const float r = op == "set" ? lim.set(fv, fm, fa, fd) : lim.increment(fv, fm, fa, fd);
      vj::Ev(op).i("v", v).i("vmax", vmax).i("step", acc * dt).raw("ret", std::to_string(vj::sc(r, 64))).i("get", vj::sc(lim.get(), 64));
      if (r * 64 != std::floor(r * 64))
        vj::Ev("inexact");
    }
    else if (op == "clear")
    {
      lim.clear();
      vj::Ev("clear").i("get", vj::sc(lim.get(), 64));
    }
    else if (op == "nonfinite")
    {
      const float nan = std::numeric_limits<float>::quiet_NaN();
      const float r = lim.set(nan, 1.0f, 1.0f, 1.0f);
      vj::Ev("nonfinite").i("ret", vj::sc(r, 64)).i("get", vj::sc(lim.get(), 64));
    }
    else if (op == "clip")
    {
      int v, m;
      s >> v >> m;
      vj::Ev("clip").i("v", v).i("max", m).i("ret", vj::sc(clip(v / 64.0f, m / 64.0f), 64));
    }
    else if (op == "angle")
    {
      int a;  // 1e-5 rad
      s >> a;
      const float f = a * 1e-5;
      vj::Ev("angle").i("a", vj::sc(f, 1e5)).i("ret", vj::sc(angleNormalized(f), 1e5));
    }
    else if (op == "topt")
    {
      int a, c;
      s >> a >> c;
      vj::Ev("topt").i("a", a).i("acc", c).i("ret", vj::sc(timeOptimalControl(a / 16.0f, c / 16.0f), 100));
    }
    else
      return 5;
  }
  fclose(vj::out());
  return 0;
}
