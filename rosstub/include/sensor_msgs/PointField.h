// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace sensor_msgs
{
struct PointField
{
  enum { INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8 };
  std::string name;
  uint32_t offset{};
  uint8_t datatype{};
  uint32_t count{};
  typedef boost::shared_ptr<PointField> Ptr;
  typedef boost::shared_ptr<const PointField> ConstPtr;
  template <class S> void visit(S& s) { s.f("name", name); s.f("offset", offset); s.f("datatype", datatype); s.f("count", count); }
  static const char* rosDataType() { return "sensor_msgs/PointField"; }
};
typedef PointField::Ptr PointFieldPtr; typedef PointField::ConstPtr PointFieldConstPtr;
inline bool operator==(const PointField& a, const PointField& b) { return a.name == b.name && a.offset == b.offset && a.datatype == b.datatype && a.count == b.count; }
inline bool operator!=(const PointField& a, const PointField& b) { return !(a == b); }
}  // namespace
