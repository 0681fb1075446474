// Stand-in for the PointCloud2 iterators and modifier.
#pragma once
#include <sensor_msgs/PointCloud2.h>
#include <cstdarg>
#include <cstring>
#include <stdexcept>
namespace sensor_msgs
{
inline int sizeOfPointField(int t) { return t <= 2 ? 1 : t <= 4 ? 2 : t <= 7 ? 4 : 8; }
class PointCloud2Modifier
{
  PointCloud2& c_;
public:
  explicit PointCloud2Modifier(PointCloud2& c) : c_(c) {}
  size_t size() const { return c_.point_step ? c_.data.size() / c_.point_step : 0; }
  void resize(size_t n) { c_.data.resize(n * c_.point_step); c_.height = 1; c_.width = n; c_.row_step = n * c_.point_step; }
  void clear() { resize(0); }
  void reserve(size_t n) { c_.data.reserve(n * c_.point_step); }
  void add(const std::string& name, int type)
  {
    PointField f;
    f.name = name; f.count = 1; f.datatype = type; f.offset = c_.point_step;
    c_.fields.push_back(f);
    c_.point_step += sizeOfPointField(type);
  }
  void setPointCloud2Fields(int n, ...)
  {
    va_list l;
    va_start(l, n);
    c_.fields.clear(); c_.point_step = 0;
    for (int i = 0; i < n; i++)
    {
      const char* name = va_arg(l, const char*);
      va_arg(l, int);
      add(name, va_arg(l, int));
    }
    va_end(l);
    c_.row_step = c_.width * c_.point_step;
    c_.data.resize(c_.height * c_.row_step);
  }
  void setPointCloud2FieldsByString(int n, ...)
  {
    va_list l;
    va_start(l, n);
    c_.fields.clear(); c_.point_step = 0;
    for (int i = 0; i < n; i++)
    {
      const std::string f = va_arg(l, const char*);
      if (f == "xyz") { add("x", PointField::FLOAT32); add("y", PointField::FLOAT32); add("z", PointField::FLOAT32); c_.point_step = 16; }
      else if (f == "rgb" || f == "rgba") { add(f, PointField::FLOAT32); c_.point_step += 12; }
      else throw std::runtime_error("Field " + f + " does not exist");
    }
    va_end(l);
    c_.row_step = c_.width * c_.point_step;
    c_.data.resize(c_.height * c_.row_step);
  }
};
namespace impl
{
template <class T, class C, class B>
class It
{
  B* p_ = nullptr;
  B* end_ = nullptr;
  size_t step_ = 0;
public:
  It() {}
  It(C& c, const std::string& name)
  {
    for (auto& f : c.fields)
      if (f.name == name)
      {
        step_ = c.point_step;
        const size_t n = static_cast<size_t>(c.width) * c.height;
        p_ = c.data.data() + f.offset;
        end_ = p_ + n * step_;
        return;
      }
    throw std::runtime_error("Field " + name + " does not exist");
  }
  T& operator*() const { return *reinterpret_cast<T*>(p_); }
  T& operator[](size_t i) const { return reinterpret_cast<T*>(p_)[i]; }
  It& operator++() { p_ += step_; return *this; }
  It operator+(int i) const { It r = *this; r.p_ += static_cast<long>(step_) * i; return r; }
  It& operator+=(int i) { p_ += static_cast<long>(step_) * i; return *this; }
  bool operator!=(const It& o) const { return p_ != o.p_; }
  bool operator==(const It& o) const { return p_ == o.p_; }
  It end() const { It r = *this; r.p_ = end_; return r; }
};
}  // namespace impl
template <class T> using PointCloud2Iterator = impl::It<T, PointCloud2, uint8_t>;
template <class T> using PointCloud2ConstIterator = impl::It<const T, const PointCloud2, const uint8_t>;
}  // namespace sensor_msgs
