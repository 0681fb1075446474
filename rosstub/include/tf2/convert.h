#pragma once
#include <tf2/transform_datatypes.h>
#include <tf2/exceptions.h>
#include <geometry_msgs/TransformStamped.h>
#include <tf2/LinearMath/all.h>
namespace tf2
{
template <class T> const ros::Time& getTimestamp(const T& t) { return t.header.stamp; }
template <class T> const std::string& getFrameId(const T& t) { return t.header.frame_id; }
template <class P> const ros::Time& getTimestamp(const Stamped<P>& t) { return t.stamp_; }
template <class P> const std::string& getFrameId(const Stamped<P>& t) { return t.frame_id_; }
}
