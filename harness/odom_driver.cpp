// C22: the unmodified track_odometry node.
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/Imu.h>
#include <std_msgs/Float32.h>
#define main node_main
#include NODE_SRC
#undef main
#define ND_TF
#include "node.h"
namespace nd
{
static const double U = 1.0 / 64;
static bool legacy_, alone_, fixed_;
static bool have_tf_ = false;
static std::vector<int> mount_{ 0, 0, 0 };
static long long ms() { return std::llround((ros::Time::now() - ros::Time(1000.0)).toSec() * 1000); }
int runNode() { int c = 1; char n[] = "node"; char* v[] = { n, nullptr }; return node_main(c, v); }
bool preamble(const Tok&) { return false; }
static tf2::Quaternion quarter(int r, int p, int y)
{
  tf2::Quaternion q;
  q.setRPY(r * M_PI / 2, p * M_PI / 2, y * M_PI / 2);
  return q;
}
static std::vector<long long> mat(const tf2::Quaternion& q, double s)
{
  const tf2::Matrix3x3 m(q);
  std::vector<long long> v;
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) v.push_back(vj::sc(m[a][b], s));
  return v;
}
static tf2::Quaternion Q(const geometry_msgs::Quaternion& q) { return tf2::Quaternion(q.x, q.y, q.z, q.w); }
static void link()
{
  sim::removeTf("imu");
  if (!have_tf_) return;
  geometry_msgs::TransformStamped m;
  m.header.frame_id = "base_link"; m.child_frame_id = "imu"; m.header.stamp = ros::Time::now();
  m.transform.translation.x = 0.5; m.transform.rotation = tf2::toMsg(quarter(mount_[0], mount_[1], mount_[2]));
  sim::setTf(m, true);
}
// the base frame given by parameter is turned by a quarter against base_link
static tf2::Quaternion toBase() { return fixed_ && !alone_ ? quarter(0, 0, 1) : tf2::Quaternion(0, 0, 0, 1); }
// begin <legacy> <alone> <fixed> <zt> <zlegacy> <tol ms> <kf> <neg> <tf> <S> <sp> <ptc>
void onBegin(const Tok& t)
{
  legacy_ = i(t[1]); alone_ = i(t[2]); fixed_ = i(t[3]) || alone_;
  const std::string p = "/track_odometry/";
  sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(legacy_ ? 0 : 1));
  if (alone_) { sim::setParam(p + "without_odom", XmlRpc::XmlRpcValue(true)); sim::setParam(p + "odom_id", XmlRpc::XmlRpcValue(std::string("odom_alone"))); sim::setParam(p + "base_link_id", XmlRpc::XmlRpcValue(std::string("base_link"))); }
  else if (fixed_) sim::setParam(p + "base_link_id", XmlRpc::XmlRpcValue(std::string("base_fixed")));
  const int zt = i(t[4]), zl = i(t[5]);
  // the deprecated parameter stands for a time constant of 10 ms / (1 - z): z = 1 - 0.64 / zl gives zl / 64 s
  if (zl > 0) sim::setParam(p + "z_filter", XmlRpc::XmlRpcValue(1.0 - 0.64 / zl));
  else if (zl < 0) sim::setParam(p + "z_filter", XmlRpc::XmlRpcValue(zl == -1 ? 1.0 : zl == -2 ? 0.0 : 1.5));
  if (zt > 0) sim::setParam(p + "z_filter_timeconst", XmlRpc::XmlRpcValue(zt * U));
  sim::setParam(p + "tf_tolerance", XmlRpc::XmlRpcValue(i(t[6]) * 1e-3));
  sim::setParam(p + "use_kf", XmlRpc::XmlRpcValue(static_cast<bool>(i(t[7]))));
  sim::setParam(p + "enable_negative_slip", XmlRpc::XmlRpcValue(static_cast<bool>(i(t[8]))));
  sim::setParam(p + "publish_tf", XmlRpc::XmlRpcValue(static_cast<bool>(i(t[9]))));
  sim::setParam(p + "sigma_odom", XmlRpc::XmlRpcValue(i(t[10]) * U));
  sim::setParam(p + "sigma_predict", XmlRpc::XmlRpcValue(i(t[11]) * 1e-4));
  sim::setParam(p + "predict_filter_tc", XmlRpc::XmlRpcValue(i(t[12]) / 4.0));
  vj::Ev("begin").b("alone", alone_).b("fixed", fixed_).i("zt", zl > 0 ? zl : zl < 0 ? 0 : zt).i("tol", i(t[6]) * 1000).b("kf", i(t[7])).b("neg", i(t[8])).b("tf", i(t[9]))
      .i("S", i(t[10])).i("sp", i(t[11])).i("ptc", i(t[12])).s("parent", alone_ ? "odom_alone" : "odom").s("child", fixed_ && !alone_ ? "base_fixed" : "base_link");
  if (fixed_ && !alone_)
  {
    geometry_msgs::TransformStamped m;
    m.header.frame_id = "base_fixed"; m.child_frame_id = "base_link"; m.header.stamp = ros::Time::now();
    m.transform.rotation = tf2::toMsg(quarter(0, 0, 1));
    sim::setTf(m, true);
  }
  sim::sink<nav_msgs::Odometry>("/odom", [](const nav_msgs::Odometry& m)
  {
    const auto& p = m.pose.pose.position;
    const auto& a = m.twist.twist.angular;
    const auto& v = m.twist.twist.linear;
    vj::Ev("pub").i("t", us(m.header.stamp)).i("ms", ms()).s("frame", m.header.frame_id).s("child", m.child_frame_id)
        .a("p", std::vector<long long>{ vj::sc(p.x, 1e4), vj::sc(p.y, 1e4), vj::sc(p.z, 1e4) }).a("rot", mat(Q(m.pose.pose.orientation), 1000))
        .a("ang", std::vector<long long>{ vj::sc(a.x, 6400), vj::sc(a.y, 6400), vj::sc(a.z, 6400) }).a("lin", std::vector<long long>{ vj::sc(v.x, 64), vj::sc(v.y, 64), vj::sc(v.z, 64) });
  });
  sim::tf().sink = [](const geometry_msgs::TransformStamped& m, bool st)
  {
    const auto& p = m.transform.translation;
    vj::Ev("tf").i("t", us(m.header.stamp)).i("ms", ms()).s("frame", st ? "static" : m.header.frame_id).s("child", m.child_frame_id)
        .a("p", std::vector<long long>{ vj::sc(p.x, 1e4), vj::sc(p.y, 1e4), vj::sc(p.z, 1e4) }).a("rot", mat(Q(m.transform.rotation), 1000));
  };
}
static ros::Time stamp(int n) { return ros::Time(1000.0) + ros::Duration(n * U); }
void handle(const Tok& t, const std::string&)
{
  if (t[0] == "odom")
  {
    // odom <stamp> x y z  r p y  w  lx
    nav_msgs::Odometry m;
    m.header.frame_id = "odom"; m.child_frame_id = "base_link"; m.header.stamp = stamp(i(t[1]));
    m.pose.pose.position.x = i(t[2]) / 8.0; m.pose.pose.position.y = i(t[3]) / 8.0; m.pose.pose.position.z = i(t[4]) / 8.0;
    const tf2::Quaternion q = quarter(i(t[5]), i(t[6]), i(t[7]));
    m.pose.pose.orientation = tf2::toMsg(q);
    m.twist.twist.angular.z = i(t[8]) * U; m.twist.twist.linear.x = i(t[9]) * U;
    vj::Ev("odom").i("t", i(t[1])).a("p", std::vector<int>{ i(t[2]), i(t[3]), i(t[4]) }).a("rot", mat(q, 1)).i("w", i(t[8])).a("lin", std::vector<int>{ i(t[9]), 0, 0 });
    sim::inject("/odom_raw", m);
  }
  else if (t[0] == "imu")
  {
    // imu <stamp> r p y  gx gy gz
    sensor_msgs::Imu m;
    m.header.frame_id = "imu"; m.header.stamp = stamp(i(t[1]));
    const tf2::Quaternion q = quarter(i(t[2]), i(t[3]), i(t[4]));
    m.orientation = tf2::toMsg(q);
    m.angular_velocity.x = i(t[5]) * U; m.angular_velocity.y = i(t[6]) * U; m.angular_velocity.z = i(t[7]) * U;
    m.linear_acceleration.z = 9.8;
    vj::Ev("imu").i("t", i(t[1])).i("ms", ms()).a("att", mat(q, 1)).a("g", std::vector<int>{ i(t[5]), i(t[6]), i(t[7]) })
        .a("tf", have_tf_ ? mat(toBase() * quarter(mount_[0], mount_[1], mount_[2]), 1) : std::vector<long long>{});
    sim::inject(legacy_ ? "/imu" : "/imu/data", m);
  }
  else if (t[0] == "mount")
  {
    have_tf_ = t.size() > 1;
    if (have_tf_) mount_ = { i(t[1]), i(t[2]), i(t[3]) };
    link();
  }
  else if (t[0] == "resetz")
  {
    std_msgs::Float32 m;
    m.data = i(t[1]) / 8.0;
    vj::Ev("resetz").i("z", i(t[1])).i("ms", ms());
    sim::inject(legacy_ ? "/track_odometry/reset_z" : "/reset_odometry_z", m);
  }
}
void finished(const std::string& how) { vj::Ev("end").s("how", how).i("ms", ms()); }
}
ND_MAIN
