#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
class TransformListener { public: template <class B> explicit TransformListener(B&, bool = true) {} template <class B> TransformListener(B&, const ros::NodeHandle&, bool = true) {} };
}
