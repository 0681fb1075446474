// C30: the unmodified largemap_to_map node.
#define main node_main
#include NODE_SRC
#undef main
#define ND_TF
#include "node.h"
namespace nd
{
static const double U = 1.0 / 64;
static bool legacy_;
static long long ms() { return std::llround((ros::Time::now() - ros::Time(1000.0)).toSec() * 1000); }
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
// begin <legacy> <period ms> <width> <round> <occlusion> <walls>
void onBegin(const Tok& t)
{
  legacy_ = i(t[1]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy_ ? 0 : 1));
  const std::string p = "/largemap_to_map/";
  sim::setParam(p + "hz", XmlRpc::XmlRpcValue(1000.0 / i(t[2])));
  sim::setParam(p + "width", XmlRpc::XmlRpcValue(i(t[3])));
  sim::setParam(p + "round_local_map", XmlRpc::XmlRpcValue(static_cast<bool>(i(t[4]))));
  sim::setParam(p + "simulate_occlusion", XmlRpc::XmlRpcValue(static_cast<bool>(i(t[5]))));
  sim::setParam(p + "simulate_surrounded", XmlRpc::XmlRpcValue(static_cast<bool>(i(t[6]))));
  vj::Ev("begin").i("t", ms()).i("period", i(t[2])).i("width", i(t[3])).b("round", i(t[4])).b("occlusion", i(t[5])).b("walls", i(t[6]));
  sim::onDeliver<nav_msgs::OccupancyGrid>("/map", [](const nav_msgs::OccupancyGrid& m)
  {
    vj::Ev("large").i("t", ms()).i("w", m.info.width).i("h", m.info.height).i("res", std::llround(m.info.resolution / U)).i("ox", std::llround(m.info.origin.position.x / U)).i("oy", std::llround(m.info.origin.position.y / U)).a("data", m.data);
  });
  sim::sink<nav_msgs::OccupancyGrid>(legacy_ ? p + "map" : "/map_local", [](const nav_msgs::OccupancyGrid& m)
  {
    const double ox = m.info.origin.position.x / U * 2, oy = m.info.origin.position.y / U * 2;
    const bool half = std::llround(ox) % 2 != 0 || std::llround(oy) % 2 != 0;   // off the unit grid: not aligned either
    vj::Ev("map").i("t", ms()).i("w", m.info.width).i("h", m.info.height).i("res", std::llround(m.info.resolution / U)).i("ox", std::llround(m.info.origin.position.x / U)).i("oy", std::llround(m.info.origin.position.y / U)).a("data", m.data)
        .b("ok", m.header.frame_id == "map" && m.info.origin.orientation.w == 1 && m.info.origin.position.z == 0 && !half);
  });
}
void handle(const Tok& t, const std::string&)
{
  if (t[0] == "robot")
  {
    std::vector<long long> v;
    if (t[1] == "none") sim::removeTf("base_link");
    else
    {
      geometry_msgs::TransformStamped m;
      m.header.frame_id = "map"; m.child_frame_id = "base_link"; m.header.stamp = ros::Time::now();
      m.transform.translation.x = i(t[1]) * U; m.transform.translation.y = i(t[2]) * U; m.transform.rotation = tf2::toMsg(tf2::Quaternion(tf2::Vector3(0, 0, 1), d(t[3])));
      sim::setTf(m, false);
      v = { i(t[1]), i(t[2]) };
    }
    vj::Ev("robot").i("t", ms()).a("p", v);
  }
  else if (t[0] == "large")
  {
    // large w h res ox oy cells...
    nav_msgs::OccupancyGrid m;
    m.header.frame_id = "map";
    m.info.width = i(t[1]); m.info.height = i(t[2]); m.info.resolution = i(t[3]) * U;
    m.info.origin.position.x = i(t[4]) * U; m.info.origin.position.y = i(t[5]) * U; m.info.origin.position.z = 0.5; m.info.origin.orientation.w = 1;
    for (size_t k = 6; k < t.size(); k++) m.data.push_back(i(t[k]));
    sim::inject("/map", m);
  }
}
void finished(const std::string& how) { vj::Ev("end").i("t", ms()).s("how", how); }
}  // namespace nd
ND_MAIN
