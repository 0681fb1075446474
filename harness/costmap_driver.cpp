// C12-C14: the unmodified costmap_3d node driven by base maps and overlay maps. One cell is 0.125 m.
#define main node_main
#include NODE_SRC
#include NODE_SRC2
#undef main
#include "node.h"
namespace nd
{
static const double RES = 0.125;
static std::vector<std::string> outs;
static bool legacy = false;
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
template <class V> static std::string arr(const V& v)
{
  std::string s = "[";
  for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + std::to_string(static_cast<int>(v[k]));
  return s + "]";
}
static int cells(double v) { return static_cast<int>(std::llround(v / RES)); }
void onBegin(const Tok& t)
{
  legacy = i(t[1]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy ? 0 : 1));
  const std::string p = legacy ? "/costmap_3d/" : "/";
  sim::sink<costmap_cspace_msgs::CSpace3D>(p + "costmap", [](const costmap_cspace_msgs::CSpace3D& m)
  {
    outs.push_back("{\"k\":\"costmap\",\"w\":" + std::to_string(m.info.width) + ",\"h\":" + std::to_string(m.info.height) + ",\"a\":" + std::to_string(m.info.angle) +
                   ",\"ox\":" + std::to_string(cells(m.info.origin.position.x)) + ",\"oy\":" + std::to_string(cells(m.info.origin.position.y)) +
                   ",\"ok\":" + (m.header.frame_id == "map" && std::abs(m.info.linear_resolution - RES) < 1e-6 && std::abs(m.info.angular_resolution * m.info.angle - 2 * M_PI) < 1e-4 &&
                                 m.data.size() == static_cast<size_t>(m.info.width) * m.info.height * m.info.angle ? "true" : "false") + ",\"data\":" + arr(m.data) + "}");
  });
  sim::sink<costmap_cspace_msgs::CSpace3DUpdate>(p + "costmap_update", [](const costmap_cspace_msgs::CSpace3DUpdate& m)
  {
    outs.push_back("{\"k\":\"update\",\"x\":" + std::to_string(m.x) + ",\"y\":" + std::to_string(m.y) + ",\"yaw\":" + std::to_string(m.yaw) + ",\"w\":" + std::to_string(m.width) +
                   ",\"h\":" + std::to_string(m.height) + ",\"a\":" + std::to_string(m.angle) + ",\"ok\":" + (m.header.frame_id == "map" ? "true" : "false") + ",\"data\":" + arr(m.data) + "}");
  });
  vj::Ev("begin").raw("cfg", t[2]);
}
static void emit(vj::Ev& e)
{
  std::string s = "[";
  for (size_t k = 0; k < outs.size(); k++) s += (k ? "," : "") + outs[k];
  e.raw("outs", s + "]");
  outs.clear();
}
void handle(const Tok& t, const std::string&)
{
  // base|ov <topic> <probe> <frame> <w> <h> <ox> <oy> <data...>
  if (t[0] == "base" || t[0] == "ov")
  {
    nav_msgs::OccupancyGrid m;
    m.header.frame_id = t[3];
    m.header.stamp = ros::Time::now();
    m.info.resolution = RES;
    m.info.width = i(t[4]); m.info.height = i(t[5]);
    m.info.origin.position.x = i(t[6]) * RES; m.info.origin.position.y = i(t[7]) * RES;
    m.info.origin.orientation.w = 1;
    for (size_t k = 8; k < t.size(); k++) m.data.push_back(i(t[k]));
    if (m.data.size() != m.info.width * m.info.height) { fprintf(stderr, "bad map\n"); exit(3); }
    sim::inject("/" + t[1], m);
    const Tok tt = t;
    const std::vector<int8_t> d = m.data;
    sim::post([tt, d]()
    {
      vj::Ev e(tt[0]);
      e.s("topic", tt[1]).b("probe", i(tt[2])).s("frame", tt[3]).i("w", i(tt[4])).i("h", i(tt[5])).i("ox", i(tt[6])).i("oy", i(tt[7])).raw("data", arr(d));
      emit(e);
    });
  }
}
void finished(const std::string& how) { vj::Ev e("end"); e.s("how", how); emit(e); }
}  // namespace nd
ND_MAIN
