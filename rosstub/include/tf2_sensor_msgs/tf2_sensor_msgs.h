#pragma once
#include <sensor_msgs/point_cloud2_iterator.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
namespace tf2
{
inline void doTransform(const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const geometry_msgs::TransformStamped& t)
{
  out = in;
  out.header = t.header;
  tf2::Transform tr;
  tf2::fromMsg(t.transform, tr);
  sensor_msgs::PointCloud2ConstIterator<float> x(in, "x"), y(in, "y"), z(in, "z");
  sensor_msgs::PointCloud2Iterator<float> xo(out, "x"), yo(out, "y"), zo(out, "z");
  for (; x != x.end(); ++x, ++y, ++z, ++xo, ++yo, ++zo)
  {
    const tf2::Vector3 v = tr * tf2::Vector3(*x, *y, *z);
    *xo = v.x(); *yo = v.y(); *zo = v.z();
  }
}
}  // namespace tf2
