// C23: the unmodified select_map node.
#define main node_main
#include NODE_SRC
#undef main
#define ND_TF
#include "node.h"
namespace nd
{
static bool legacy_;
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
static nav_msgs::OccupancyGrid grid(int id, int z)
{
  nav_msgs::OccupancyGrid m;
  m.header.frame_id = "map";
  m.header.stamp = ros::Time(900.0 + id);
  m.info.width = 1 + id % 3; m.info.height = 2; m.info.resolution = 0.25 * (1 + id % 4);
  m.info.origin.position.x = -id; m.info.origin.position.y = 0.5 * id; m.info.origin.position.z = z * 0.5; m.info.origin.orientation.w = 1;
  m.data.assign(m.info.width * 2, id % 100);
  return m;
}
void onBegin(const Tok& t)
{
  legacy_ = i(t[1]);
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy_ ? 0 : 1));
  vj::Ev("begin");
  sim::onDeliver<map_organizer_msgs::OccupancyGridArray>("/maps", [](const map_organizer_msgs::OccupancyGridArray& m)
  {
    std::string js = "[";
    for (auto& g : m.maps) js += (js.size() > 1 ? "," : "") + std::string("{\"id\":") + std::to_string(std::llround(-g.info.origin.position.x)) + ",\"z\":" + std::to_string(std::llround(g.info.origin.position.z * 2)) + "}";
    vj::Ev("maps").raw("maps", js + "]");
  });
  sim::onDeliver<std_msgs::Int32>(legacy_ ? "/select_map/floor" : "/floor", [](const std_msgs::Int32& m) { vj::Ev("floor").i("floor", m.data); });
  sim::sink<nav_msgs::OccupancyGrid>("/map", [](const nav_msgs::OccupancyGrid& m)
  {
    const int id = std::llround(-m.info.origin.position.x);
    nav_msgs::OccupancyGrid w = grid(id, 0);
    w.header.stamp = m.header.stamp;
    vj::Ev("map").i("id", id).b("ok", w == m);
  });
  sim::tf().sink = [](const geometry_msgs::TransformStamped& m, bool)
  {
    const auto& p = m.transform;
    const bool ok = m.header.frame_id == "map_ground" && m.child_frame_id == "map" && p.translation.x == 0 && p.translation.y == 0 && p.rotation.w == 1 && p.rotation.x == 0 && p.rotation.y == 0 && p.rotation.z == 0 &&
                    m.header.stamp >= ros::Time::now();
    vj::Ev("tf").i("z", std::llround(p.translation.z * 2)).b("ok", ok);
  };
}
void handle(const Tok& t, const std::string&)
{
  if (t[0] == "maps")
  {
    map_organizer_msgs::OccupancyGridArray m;
    for (size_t k = 1; k + 1 < t.size(); k += 2) m.maps.push_back(grid(i(t[k]), i(t[k + 1])));
    sim::inject("/maps", m);
  }
  else if (t[0] == "floor") { std_msgs::Int32 f; f.data = i(t[1]); sim::inject(legacy_ ? "/select_map/floor" : "/floor", f); }
  else if (t[0] == "idle") vj::Ev("idle");
}
void finished(const std::string& how) { vj::Ev("end").s("how", how); }
}  // namespace nd
ND_MAIN
