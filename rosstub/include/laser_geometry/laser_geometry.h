// Stand-in for laser_geometry: points of the ranges within the limits, in the plane of the scan.
#pragma once
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/point_cloud2_iterator.h>
namespace laser_geometry
{
class LaserProjection
{
public:
  void projectLaser(const sensor_msgs::LaserScan& s, sensor_msgs::PointCloud2& c, double cutoff = -1.0, int = 0)
  {
    c = sensor_msgs::PointCloud2();
    c.header = s.header;
    sensor_msgs::PointCloud2Modifier m(c);
    m.setPointCloud2Fields(5, "x", 1, sensor_msgs::PointField::FLOAT32, "y", 1, sensor_msgs::PointField::FLOAT32, "z", 1, sensor_msgs::PointField::FLOAT32,
                           "intensity", 1, sensor_msgs::PointField::FLOAT32, "index", 1, sensor_msgs::PointField::INT32);
    std::vector<size_t> ok;
    if (cutoff < 0) cutoff = s.range_max;
    for (size_t i = 0; i < s.ranges.size(); i++)
      if (s.ranges[i] < cutoff && s.ranges[i] >= s.range_min) ok.push_back(i);
    m.resize(ok.size());
    sensor_msgs::PointCloud2Iterator<float> x(c, "x"), y(c, "y"), z(c, "z"), in(c, "intensity");
    sensor_msgs::PointCloud2Iterator<int> ix(c, "index");
    for (size_t i : ok)
    {
      const double a = s.angle_min + i * s.angle_increment;
      *x = s.ranges[i] * std::cos(a); *y = s.ranges[i] * std::sin(a); *z = 0;
      *in = i < s.intensities.size() ? s.intensities[i] : 0; *ix = i;
      ++x; ++y; ++z; ++in; ++ix;
    }
    if (ok.empty()) { c.width = 0; c.height = 1; }
  }
};
}  // namespace laser_geometry
