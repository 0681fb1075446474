// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/Vector3.h>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct Imu
{
  std_msgs::Header header;
  geometry_msgs::Quaternion orientation;
  boost::array<double, 9> orientation_covariance{};
  geometry_msgs::Vector3 angular_velocity;
  boost::array<double, 9> angular_velocity_covariance{};
  geometry_msgs::Vector3 linear_acceleration;
  boost::array<double, 9> linear_acceleration_covariance{};
  typedef boost::shared_ptr<Imu> Ptr;
  typedef boost::shared_ptr<const Imu> ConstPtr;
  enum { ROS_HAS_HEADER = 1 };
  template <class S> void visit(S& s) { s.f("header", header); s.f("orientation", orientation); s.f("orientation_covariance", orientation_covariance); s.f("angular_velocity", angular_velocity); s.f("angular_velocity_covariance", angular_velocity_covariance); s.f("linear_acceleration", linear_acceleration); s.f("linear_acceleration_covariance", linear_acceleration_covariance); }
  static const char* rosDataType() { return "sensor_msgs/Imu"; }
};
typedef Imu::Ptr ImuPtr; typedef Imu::ConstPtr ImuConstPtr;
inline bool operator==(const Imu& a, const Imu& b) { return a.header == b.header && a.orientation == b.orientation && a.orientation_covariance == b.orientation_covariance && a.angular_velocity == b.angular_velocity && a.angular_velocity_covariance == b.angular_velocity_covariance && a.linear_acceleration == b.linear_acceleration && a.linear_acceleration_covariance == b.linear_acceleration_covariance; }
inline bool operator!=(const Imu& a, const Imu& b) { return !(a == b); }
}  // namespace
