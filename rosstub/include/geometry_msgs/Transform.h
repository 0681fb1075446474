// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs
{
struct Transform
{
  geometry_msgs::Vector3 translation;
  geometry_msgs::Quaternion rotation;
  typedef boost::shared_ptr<Transform> Ptr;
  typedef boost::shared_ptr<const Transform> ConstPtr;
  template <class S> void visit(S& s) { s.f("translation", translation); s.f("rotation", rotation); }
  static const char* rosDataType() { return "geometry_msgs/Transform"; }
};
typedef Transform::Ptr TransformPtr; typedef Transform::ConstPtr TransformConstPtr;
inline bool operator==(const Transform& a, const Transform& b) { return a.translation == b.translation && a.rotation == b.rotation; }
inline bool operator!=(const Transform& a, const Transform& b) { return !(a == b); }
}  // namespace
