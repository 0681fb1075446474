// C24: the unmodified pointcloud2_to_map / laserscan_to_map nodes.
#define main node_main
#include NODE_SRC
#undef main
#define ND_TF
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
#include "node.h"
namespace nd
{
static const double U = 1.0 / 64;
static std::string outs;
static std::vector<long long> tf_, robot_;
static double param(const char* n) { return ros::NodeHandle("~").param(n, 0.0); }
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
void onBegin(const Tok& t)
{
  // begin <legacy> <kind> <hold ms> <interval ms> <width> <res> <zmin> <zmax>
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(i(t[1]) ? 0 : 1));
  const std::string p = t[2] == "laser" ? "/laserscan_to_map/" : "/pointcloud2_to_map/";
  auto set = [&](const char* n, double v) { sim::setParam(p + n, XmlRpc::XmlRpcValue(v)); };
  set("accum_duration", i(t[3]) / 1000.0);
  set("hz", 1000.0 / i(t[4]));
  sim::setParam(p + "width", XmlRpc::XmlRpcValue(i(t[5])));
  set("resolution", i(t[6]) * U);
  if (i(t[7]) > -100000) { set("z_min", i(t[7]) * U); set("z_max", i(t[8]) * U); }
  sim::sink<nav_msgs::OccupancyGrid>(i(t[1]) ? p + "map" : "/map_local", [](const nav_msgs::OccupancyGrid& m)
  {
    std::string d = "[";
    for (size_t k = 0; k < m.data.size(); k++) d += (k ? "," : "") + std::to_string(static_cast<int>(m.data[k]));
    const bool ok = m.header.frame_id == "map" && m.data.size() == m.info.width * m.info.height && m.info.origin.orientation.w == 1.0;
    outs += (outs.empty() ? "" : ",") + std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"w\":" + std::to_string(m.info.width) + ",\"h\":" + std::to_string(m.info.height) +
            ",\"ox\":" + std::to_string(std::llround(m.info.origin.position.x / U)) + ",\"oy\":" + std::to_string(std::llround(m.info.origin.position.y / U)) + ",\"data\":" + d + "]}";
  });
  vj::Ev("begin").s("kind", t[2]).i("hold", i(t[3])).i("interval", i(t[4])).i("width", i(t[5])).i("res", i(t[6])).i("zmin", i(t[7])).i("zmax", i(t[8]));
}
static long long ms(const ros::Time& t) { return std::llround((t - ros::Time(1000.0)).toSec() * 1000); }
void handle(const Tok& t, const std::string&)
{
  if (t[0] == "robot" || t[0] == "sensor")
  {
    // robot|sensor <x> <y> <z> [quarter turns] [roll]   or  robot|sensor none
    const std::string f = t[0] == "robot" ? "base_link" : "sensor";
    std::vector<long long>& v = t[0] == "robot" ? robot_ : tf_;
    v.clear();
    if (t[1] == "none") { sim::removeTf(f); return; }
    for (size_t k = 1; k < t.size(); k++) v.push_back(i(t[k]));
    while (v.size() < 5) v.push_back(0);
    geometry_msgs::TransformStamped m;
    m.header.frame_id = "map"; m.child_frame_id = f; m.header.stamp = ros::Time::now();
    m.transform.translation.x = v[0] * U; m.transform.translation.y = v[1] * U; m.transform.translation.z = v[2] * U;
    tf2::Quaternion q;
    q.setRPY(v[4] * M_PI / 2, 0, v[3] * M_PI / 2);
    m.transform.rotation = tf2::toMsg(q);
    sim::setTf(m, true);
    return;
  }
  // cloud <single> <stamp offset ms> x y z ...     scan <stamp offset ms> <rmin> <rmax> r...
  const bool laser = t[0] == "scan";
  std::vector<std::vector<long long>> pts;
  std::vector<long long> ranges;
  const ros::Time stamp = ros::Time::now() + ros::Duration(i(t[laser ? 1 : 2]) / 1000.0);
  if (laser)
  {
    sensor_msgs::LaserScan m;
    m.header.frame_id = "sensor"; m.header.stamp = stamp;
    m.angle_min = 0; m.angle_increment = M_PI / 2; m.range_min = i(t[2]) * U; m.range_max = i(t[3]) * U;
    for (size_t k = 4; k < t.size(); k++) { ranges.push_back(i(t[k])); m.ranges.push_back(i(t[k]) * U); }
    sim::inject("/scan", m);
  }
  else
  {
    sensor_msgs::PointCloud2 m;
    m.header.frame_id = "sensor"; m.header.stamp = stamp;
    sensor_msgs::PointCloud2Modifier mod(m);
    mod.setPointCloud2Fields(3, "x", 1, sensor_msgs::PointField::FLOAT32, "y", 1, sensor_msgs::PointField::FLOAT32, "z", 1, sensor_msgs::PointField::FLOAT32);
    mod.resize((t.size() - 3) / 3);
    sensor_msgs::PointCloud2Iterator<float> x(m, "x"), y(m, "y"), z(m, "z");
    for (size_t k = 3; k + 2 < t.size(); k += 3, ++x, ++y, ++z)
    {
      *x = i(t[k]) * U; *y = i(t[k + 1]) * U; *z = i(t[k + 2]) * U;
      pts.push_back({ i(t[k]), i(t[k + 1]), i(t[k + 2]) });
    }
    sim::inject(i(t[1]) ? "/cloud_singleshot" : "/cloud", m);
  }
  const std::vector<long long> tf = tf_, rb = robot_;
  const int single = laser ? 0 : i(t[1]), lo = laser ? i(t[2]) : 0, hi = laser ? i(t[3]) : 0;
  sim::post([=]()
  {
    vj::Ev e("cloud");
    e.b("single", single).i("stamp", ms(stamp)).aa("pts", pts).a("ranges", ranges).i("rmin", lo).i("rmax", hi).a("tf", tf).a("robot", rb).raw("outs", "[" + outs + "]");
    outs.clear();
  });
}
void finished(const std::string& how) { vj::Ev("end").s("how", how); }
}  // namespace nd
ND_MAIN
