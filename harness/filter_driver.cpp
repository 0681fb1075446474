#include <cassert>
#include <memory>
#include <trajectory_tracker/average.h>
#include <trajectory_tracker/filter.h>
#include <track_odometry/kalman_filter1.h>
#include "jout.h"
using namespace trajectory_tracker;
static const double INF = std::numeric_limits<double>::infinity();
int main(int argc, char** argv)
{
  std::ifstream in(argv[1]);
  vj::open(argv[2]);
  std::string line;
  std::unique_ptr<Filter> f;
  double k = 1e4;
  track_odometry::KalmanFilter1 kf;
  Average<float> mf;
  Average<double> md;
  auto kout = [&](vj::Ev& e)
  {
    e.i("ox", vj::sc(kf.x_, 1000)).b("oinf", std::isinf(kf.sigma_)).i("os", std::isinf(kf.sigma_) ? 0 : vj::sc(kf.sigma_, 1000));
  };
  while (std::getline(in, line))
  {
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op == "begin")
      vj::Ev("begin");
    else if (op == "filter")
    {
      int K, lpf, ang, v;
      s >> K >> lpf >> ang >> v;
      k = ang ? 1e4 : 1e3;
      f.reset(new Filter(lpf ? Filter::FILTER_LPF : Filter::FILTER_HPF, K / 2.0, v / k, ang));
      vj::Ev("filter").i("K", K).b("lpf", lpf).b("ang", ang).i("v", v).i("get", vj::sc(f->get(), k));
    }
    else if (op == "fset")
    {
      int v;
      s >> v;
      f->set(v / k);
      vj::Ev("fset").i("v", v).i("get", vj::sc(f->get(), k));
    }
    else if (op == "fsetout")
    {
      const float o = f->get();
      f->set(o);
      vj::Ev("fset").i("v", vj::sc(o, k)).i("get", vj::sc(f->get(), k));
    }
    else if (op == "fin")
    {
      int v;
      s >> v;
      const float r = f->in(v / k);
      vj::Ev("fin").i("v", v).i("out", vj::sc(r, k)).i("get", vj::sc(f->get(), k));
    }
    else if (op == "kstep")
    {
      int x, sg, xin, r;
      s >> x >> sg >> xin >> r;
      if ((x ^ xin) & 1)
        kf = track_odometry::KalmanFilter1(x, sg);
      else
        kf.set(x, sg);
      kf.measure(xin, r);
      vj::Ev("kstep").i("x", x).i("s", sg).i("xin", xin).i("r", r).i("x2", vj::sc(kf.x_, 1000)).i("s2", vj::sc(kf.sigma_, 1000));
    }
    else if (op == "kset")
    {
      int x, sg;
      s >> x >> sg;
      if (sg < 0)
      {
        if (x == 0)
          kf = track_odometry::KalmanFilter1();
        else
          kf.set(x / 1000.0);
      }
      else
        kf.set(x / 1000.0, sg / 1000.0);
      vj::Ev("kset").i("x", vj::sc(kf.x_, 1000)).b("inf", std::isinf(kf.sigma_)).i("s", std::isinf(kf.sigma_) ? 0 : vj::sc(kf.sigma_, 1000));
    }
    else if (op == "kpred")
    {
      int x, sg;
      s >> x >> sg;
      kf.predict(x / 1000.0, sg / 1000.0);
      vj::Ev e("kpred");
      e.i("xp", x).i("sp", sg);
      kout(e);
    }
    else if (op == "kmeas")
    {
      int x, r;
      s >> x >> r;
      kf.measure(x / 1000.0, r < 0 ? INF : r / 1000.0);
      vj::Ev e("kmeas");
      e.i("xin", x).i("r", r < 0 ? 0 : r).b("rinf", r < 0);
      kout(e);
    }
    else if (op == "mean0")
    {
      mf = Average<float>();
      md = Average<double>();
      vj::Ev("mean0").i("m", vj::sc(static_cast<float>(mf), 100) + vj::sc(static_cast<double>(md), 100));
    }
    else if (op == "mean")
    {
      int v;
      s >> v;
      mf += v;
      md += v;
      vj::Ev("mean").i("v", v).i("m", vj::sc(static_cast<float>(mf), 100)).i("md", vj::sc(static_cast<double>(md), 100));
    }
    else
      return 5;
  }
  fclose(vj::out());
  return 0;
}
