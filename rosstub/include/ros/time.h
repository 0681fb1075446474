// Deterministic stand-in for roscpp_core time. Same arithmetic as ROS1: sec/nsec pairs, simulated clock.
#pragma once
#include <stdint.h>
#include <cmath>
#include <stdexcept>
#include <iostream>
#include <string>
#include <limits>
namespace ros
{
class Duration
{
public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) { norm(s, n); }
  explicit Duration(double t) { fromSec(t); }
  void norm(int64_t s, int64_t n)
  {
    s += n / 1000000000LL;
    n %= 1000000000LL;
    if (n < 0) { n += 1000000000LL; s--; }
    if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = s; nsec = n;
  }
  Duration& fromSec(double t)
  {
    int64_t s64 = static_cast<int64_t>(std::floor(t));
    if (!(t >= -2147483648.0 && t <= 2147483647.0)) throw std::runtime_error("Duration is out of dual 32-bit range");
    norm(s64, static_cast<int64_t>(std::round((t - s64) * 1e9)));
    return *this;
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + nsec; }
  Duration& fromNSec(int64_t t) { norm(0, t); return *this; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator+(const Duration& o) const { Duration d; d.norm(static_cast<int64_t>(sec) + o.sec, static_cast<int64_t>(nsec) + o.nsec); return d; }
  Duration operator-(const Duration& o) const { return *this + (-o); }
  Duration operator-() const { Duration d; d.norm(-static_cast<int64_t>(sec), -static_cast<int64_t>(nsec)); return d; }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration& operator+=(const Duration& o) { *this = *this + o; return *this; }
  Duration& operator-=(const Duration& o) { *this = *this - o; return *this; }
  Duration& operator*=(double s) { *this = *this * s; return *this; }
  bool operator==(const Duration& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Duration& o) const { return !(*this == o); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return o < *this; }
  bool operator<=(const Duration& o) const { return !(o < *this); }
  bool operator>=(const Duration& o) const { return !(*this < o); }
  bool sleep() const;
};
class Rate;
class Time
{
public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) { norm(s, n); }
  explicit Time(double t) { fromSec(t); }
  void norm(int64_t s, int64_t n)
  {
    s += n / 1000000000LL;
    n %= 1000000000LL;
    if (n < 0) { n += 1000000000LL; s--; }
    if (s < 0 || s > 0xffffffffLL) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = s; nsec = n;
  }
  Time& fromSec(double t)
  {
    if (!(t >= 0 && t <= 4294967295.0)) throw std::runtime_error("Time is out of dual 32-bit range");
    int64_t s64 = static_cast<int64_t>(std::floor(t));
    norm(s64, static_cast<int64_t>(std::round((t - s64) * 1e9)));
    return *this;
  }
  Time& fromNSec(uint64_t t) { norm(t / 1000000000ULL, t % 1000000000ULL); return *this; }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ULL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  Time operator+(const Duration& d) const { Time t; t.norm(static_cast<int64_t>(sec) + d.sec, static_cast<int64_t>(nsec) + d.nsec); return t; }
  Time operator-(const Duration& d) const { return *this + (-d); }
  Duration operator-(const Time& o) const { Duration d; d.norm(static_cast<int64_t>(sec) - o.sec, static_cast<int64_t>(nsec) - o.nsec); return d; }
  Time& operator+=(const Duration& d) { *this = *this + d; return *this; }
  Time& operator-=(const Duration& d) { *this = *this - d; return *this; }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return o < *this; }
  bool operator<=(const Time& o) const { return !(o < *this); }
  bool operator>=(const Time& o) const { return !(*this < o); }
  static Time now();
  static bool isSimTime();
  static bool isSystemTime();
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static void init() {}
  static bool sleepUntil(const Time& t);
};
typedef Time WallTime;
typedef Time SteadyTime;
typedef Duration WallDuration;
static const Time TIME_MAX(4294967295u, 999999999u);
static const Time TIME_MIN(0u, 1u);
static const Duration DURATION_MAX(2147483647, 999999999);
inline std::ostream& operator<<(std::ostream& os, const Time& t) { char b[64]; snprintf(b, sizeof(b), "%u.%09u", t.sec, t.nsec); return os << b; }
inline std::ostream& operator<<(std::ostream& os, const Duration& t) { return os << t.toSec(); }
class Rate
{
public:
  explicit Rate(double hz);
  explicit Rate(const Duration& d);
  bool sleep();
  void reset();
  Duration cycleTime() const { return actual_; }
  Duration expectedCycleTime() const { return cycle_; }
private:
  Time start_;
  Duration cycle_, actual_;
};
}  // namespace ros
