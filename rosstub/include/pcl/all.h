// Stand-in for the parts of PCL used by the nodes.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <ros/ros.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <array>
namespace pcl
{
template <class T> using shared_ptr = boost::shared_ptr<T>;
struct PCLHeader { uint32_t seq = 0; uint64_t stamp = 0; std::string frame_id; };
struct PointXYZ
{
  union { float data[4]; struct { float x, y, z; }; };
  PointXYZ() : PointXYZ(0, 0, 0) {}
  PointXYZ(float a, float b, float c) { x = a; y = b; z = c; data[3] = 1; }
  Eigen::Vector3f getVector3fMap() const { return Eigen::Vector3f(x, y, z); }
};
template <class P>
class PointCloud
{
public:
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef P PointType;
  typedef std::vector<P> VectorType;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;
  PCLHeader header;
  VectorType points;
  uint32_t width = 0, height = 0;
  bool is_dense = true;
  PointCloud& operator+=(const PointCloud& o)
  {
    if (o.header.stamp > header.stamp) header.stamp = o.header.stamp;
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = points.size(); height = 1;
    is_dense = is_dense && o.is_dense;
    return *this;
  }
  PointCloud operator+(const PointCloud& o) { return PointCloud(*this) += o; }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n) { points.resize(n); width = n; height = 1; }
  void clear() { points.clear(); width = height = 0; }
  void push_back(const P& p) { points.push_back(p); width = points.size(); height = 1; }
  template <class... A> P& emplace_back(A&&... a) { points.emplace_back(std::forward<A>(a)...); width = points.size(); height = 1; return points.back(); }
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  P& operator[](size_t i) { return points[i]; }
  const P& operator[](size_t i) const { return points[i]; }
  P& at(size_t i) { return points.at(i); }
  const P& at(size_t i) const { return points.at(i); }
  P& back() { return points.back(); }
  P& front() { return points.front(); }
  iterator erase(iterator p) { auto r = points.erase(p); width = points.size(); height = 1; return r; }
  iterator erase(iterator a, iterator b) { auto r = points.erase(a, b); width = points.size(); height = 1; return r; }
  void swap(PointCloud& o) { std::swap(*this, o); }
  Ptr makeShared() const { return Ptr(new PointCloud(*this)); }
};
template <class P, class S, int M>
P transformPoint(const P& p, const Eigen::Transform<S, 3, M>& t)
{
  P o = p;
  const Eigen::Matrix<S, 3, 1> v = t * Eigen::Matrix<S, 3, 1>(p.x, p.y, p.z);
  o.x = v[0]; o.y = v[1]; o.z = v[2];
  return o;
}
template <class P, class S, int M>
void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Transform<S, 3, M>& t, bool = true)
{
  if (&in != &out) out = in;
  for (auto& p : out.points) p = transformPoint(p, t);
}
template <class P, class S>
void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Matrix<S, 4, 4>& t, bool = true)
{
  Eigen::Transform<S, 3, Eigen::Affine> a(t);
  transformPointCloud(in, out, a);
}
template <class P>
class VoxelGrid
{
  typename PointCloud<P>::ConstPtr in_;
  float lx_ = 0, ly_ = 0, lz_ = 0;
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in_ = c; }
  void setLeafSize(float x, float y, float z) { lx_ = x; ly_ = y; lz_ = z; }
  void filter(PointCloud<P>& out)
  {
    PointCloud<P> o;
    o.header = in_->header;
    std::map<std::array<long long, 3>, std::pair<Eigen::Vector3d, int>> v;
    for (auto& p : in_->points)
    {
      if (!std::isfinite(p.x) || !std::isfinite(p.y) || !std::isfinite(p.z)) continue;
      if (lx_ <= 0) { o.push_back(p); continue; }
      auto& e = v[{ static_cast<long long>(std::floor(p.z / lz_)), static_cast<long long>(std::floor(p.y / ly_)), static_cast<long long>(std::floor(p.x / lx_)) }];
      if (e.second == 0) e.first.setZero();
      e.first += Eigen::Vector3d(p.x, p.y, p.z);
      e.second++;
    }
    for (auto& e : v) { const Eigen::Vector3d c = e.second.first / e.second.second; o.push_back(P(c[0], c[1], c[2])); }
    out = o;
  }
};
template <class P>
class KdTreeFLANN
{
  typename PointCloud<P>::ConstPtr c_;
  static float d2(const P& a, const P& b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z); }
public:
  typedef boost::shared_ptr<KdTreeFLANN<P>> Ptr;
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { c_ = c; }
  int radiusSearch(const P& p, double r, std::vector<int>& idx, std::vector<float>& dist, unsigned int max = 0) const
  {
    std::vector<std::pair<float, int>> f;
    for (size_t i = 0; i < c_->points.size(); i++) { const float d = d2(p, c_->points[i]); if (d < r * r) f.emplace_back(d, i); }
    std::sort(f.begin(), f.end());
    if (max && f.size() > max) f.resize(max);
    idx.clear(); dist.clear();
    for (auto& e : f) { idx.push_back(e.second); dist.push_back(e.first); }
    return f.size();
  }
  int nearestKSearch(const P& p, int k, std::vector<int>& idx, std::vector<float>& dist) const
  {
    std::vector<std::pair<float, int>> f;
    for (size_t i = 0; i < c_->points.size(); i++) f.emplace_back(d2(p, c_->points[i]), i);
    std::sort(f.begin(), f.end());
    if (static_cast<int>(f.size()) > k) f.resize(k);
    idx.clear(); dist.clear();
    for (auto& e : f) { idx.push_back(e.second); dist.push_back(e.first); }
    return f.size();
  }
};
}  // namespace pcl
namespace pcl_conversions
{
inline ros::Time fromPCL(const uint64_t& s) { ros::Time t; t.fromNSec(s * 1000ull); return t; }
inline void fromPCL(const uint64_t& s, ros::Time& t) { t.fromNSec(s * 1000ull); }
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ull; }
inline void toPCL(const ros::Time& t, uint64_t& s) { s = t.toNSec() / 1000ull; }
template <class H> inline H fromPCLHeader(const pcl::PCLHeader& h) { H o; o.seq = h.seq; o.stamp = fromPCL(h.stamp); o.frame_id = h.frame_id; return o; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h) { return fromPCLHeader<std_msgs::Header>(h); }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader o; o.seq = h.seq; o.stamp = toPCL(h.stamp); o.frame_id = h.frame_id; return o; }
}
namespace pcl
{
template <class P>
void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& o)
{
  o = PointCloud<P>();
  o.header = pcl_conversions::toPCL(m.header);
  if (m.width * m.height == 0) return;
  sensor_msgs::PointCloud2ConstIterator<float> x(m, "x"), y(m, "y"), z(m, "z");
  for (; x != x.end(); ++x, ++y, ++z) o.points.emplace_back(*x, *y, *z);
  o.width = m.width; o.height = m.height;
}
template <class P>
void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m)
{
  m = sensor_msgs::PointCloud2();
  m.header = pcl_conversions::fromPCL(c.header);
  sensor_msgs::PointCloud2Modifier mod(m);
  mod.setPointCloud2Fields(3, "x", 1, sensor_msgs::PointField::FLOAT32, "y", 1, sensor_msgs::PointField::FLOAT32, "z", 1, sensor_msgs::PointField::FLOAT32);
  mod.resize(c.points.size());
  sensor_msgs::PointCloud2Iterator<float> x(m, "x"), y(m, "y"), z(m, "z");
  for (auto& p : c.points) { *x = p.x; *y = p.y; *z = p.z; ++x; ++y; ++z; }
}
}  // namespace pcl
