// C24: the point cloud accumulator template.
#include <costmap_cspace/pointcloud_accumulator.h>
#include <fstream>
#include <memory>
#include "jout.h"
struct Cloud { int id = 0; };
typedef costmap_cspace::PointcloudAccumulator<Cloud> Acc;
int main(int argc, char** argv)
{
  std::ifstream is(argv[1]);
  vj::open(argv[2]);
  std::unique_ptr<Acc> a;
  std::string l, op;
  int id = 0;
  while (std::getline(is, l))
  {
    std::istringstream ss(l);
    ss >> op;
    long long v = 0;
    int how = 0;
    ss >> v >> how;
    auto dur = [](long long ms) { return ros::Duration(ms / 1000.0); };
    if (op == "begin")
    {
      id = 0;
      if (how) { a.reset(new Acc); a->reset(dur(v)); }
      else a.reset(new Acc(dur(v)));
      vj::Ev("begin").s("kind", "template").i("hold", v);
      continue;
    }
    if (op == "push") { Cloud c; c.id = ++id; a->push(Acc::Points(c, ros::Time(v / 1000, v % 1000 * 1000000))); }
    else if (op == "clear") a->clear();
    else if (op == "reset") a->reset(dur(v));
    std::vector<long long> ids, cids, st;
    for (auto& p : *a) { ids.push_back(p.id); st.push_back(std::llround(p.stamp_.toSec() * 1000)); }
    const Acc& ca = *a;
    for (const auto& p : ca) cids.push_back(p.id);
    vj::Ev e(op);
    e.i("stamp", v).i("hold", v).i("id", id).a("ids", ids).a("cids", cids).a("stamps", st);
  }
  return 0;
}
