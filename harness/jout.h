// Tiny ndjson event writer and token reader shared by the harness drivers.
#ifndef VERIF_JOUT_H
#define VERIF_JOUT_H
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace vj
{
inline FILE*& out()
{
  static FILE* f = stdout;
  return f;
}
inline void open(const char* p)
{
  out() = fopen(p, "w");
  if (!out())
    exit(3);
}
class Ev
{
  std::string s_;

public:
  explicit Ev(const std::string& op)
    : s_("{\"op\":\"" + op + "\"")
  {
  }
  Ev& i(const char* k, long long v)
  {
    s_ += std::string(",\"") + k + "\":" + std::to_string(v);
    return *this;
  }
  Ev& b(const char* k, bool v)
  {
    s_ += std::string(",\"") + k + "\":" + (v ? "true" : "false");
    return *this;
  }
  Ev& s(const char* k, const std::string& v)
  {
    s_ += std::string(",\"") + k + "\":\"" + v + "\"";
    return *this;
  }
  Ev& raw(const char* k, const std::string& v)
  {
    s_ += std::string(",\"") + k + "\":" + v;
    return *this;
  }
  template <class C>
  Ev& a(const char* k, const C& c)
  {
    s_ += std::string(",\"") + k + "\":[";
    bool first = true;
    for (const auto& v : c)
    {
      if (!first)
        s_ += ",";
      first = false;
      s_ += std::to_string(static_cast<long long>(v));
    }
    s_ += "]";
    return *this;
  }
  template <class C>
  Ev& aa(const char* k, const C& c)
  {
    s_ += std::string(",\"") + k + "\":[";
    bool first = true;
    for (const auto& r : c)
    {
      if (!first)
        s_ += ",";
      first = false;
      s_ += "[";
      bool f2 = true;
      for (const auto& v : r)
      {
        if (!f2)
          s_ += ",";
        f2 = false;
        s_ += std::to_string(static_cast<long long>(v));
      }
      s_ += "]";
    }
    s_ += "]";
    return *this;
  }
  ~Ev()
  {
    s_ += "}\n";
    fputs(s_.c_str(), out());
  }
};
// scaled integer; saturates so that 32-bit consumers stay in range
inline long long sc(double v, double k)
{
  if (std::isnan(v))
    return 2000000001LL;
  const double x = v * k;
  if (x > 2.0e9)
    return 2000000000LL;
  if (x < -2.0e9)
    return -2000000000LL;
  return std::llround(x);
}
}  // namespace vj
#endif
