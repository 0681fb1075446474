// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace std_msgs
{
struct ColorRGBA
{
  float r{};
  float g{};
  float b{};
  float a{};
  typedef boost::shared_ptr<ColorRGBA> Ptr;
  typedef boost::shared_ptr<const ColorRGBA> ConstPtr;
  template <class S> void visit(S& s) { s.f("r", r); s.f("g", g); s.f("b", b); s.f("a", a); }
  static const char* rosDataType() { return "std_msgs/ColorRGBA"; }
};
typedef ColorRGBA::Ptr ColorRGBAPtr; typedef ColorRGBA::ConstPtr ColorRGBAConstPtr;
inline bool operator==(const ColorRGBA& a, const ColorRGBA& b) { return a.r == b.r && a.g == b.g && a.b == b.b && a.a == b.a; }
inline bool operator!=(const ColorRGBA& a, const ColorRGBA& b) { return !(a == b); }
}  // namespace
