#pragma once
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <iostream>
#include <string>
#include <boost/format.hpp>
namespace sim
{
inline void vlog(const char* lvl, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
}
#include <cstdarg>
namespace sim
{
inline bool& verbose() { static bool v = getenv("SIM_VERBOSE") != nullptr; return v; }
inline void vlog(const char* lvl, const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  if (verbose()) { fprintf(stderr, "[%s] ", lvl); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); }
  else { char b[4096]; vsnprintf(b, sizeof(b), fmt, ap); }  // arguments are evaluated and formatted as in ROS
  va_end(ap);
}
}  // namespace sim
#define SIM_LOG(l, ...) ::sim::vlog(l, __VA_ARGS__)
#define SIM_LOG_S(l, args) do { std::stringstream ss_; ss_ << args; ::sim::vlog(l, "%s", ss_.str().c_str()); } while (0)
#define SIM_ONCE(x) do { static bool hit_ = false; if (!hit_) { hit_ = true; x; } } while (0)
#define ROS_DEBUG(...) SIM_LOG("D", __VA_ARGS__)
#define ROS_INFO(...) SIM_LOG("I", __VA_ARGS__)
#define ROS_WARN(...) SIM_LOG("W", __VA_ARGS__)
#define ROS_ERROR(...) SIM_LOG("E", __VA_ARGS__)
#define ROS_FATAL(...) SIM_LOG("F", __VA_ARGS__)
#define ROS_DEBUG_STREAM(a) SIM_LOG_S("D", a)
#define ROS_INFO_STREAM(a) SIM_LOG_S("I", a)
#define ROS_WARN_STREAM(a) SIM_LOG_S("W", a)
#define ROS_ERROR_STREAM(a) SIM_LOG_S("E", a)
#define ROS_FATAL_STREAM(a) SIM_LOG_S("F", a)
#define ROS_DEBUG_ONCE(...) SIM_ONCE(ROS_DEBUG(__VA_ARGS__))
#define ROS_INFO_ONCE(...) SIM_ONCE(ROS_INFO(__VA_ARGS__))
#define ROS_WARN_ONCE(...) SIM_ONCE(ROS_WARN(__VA_ARGS__))
#define ROS_ERROR_ONCE(...) SIM_ONCE(ROS_ERROR(__VA_ARGS__))
#define ROS_FATAL_ONCE(...) SIM_ONCE(ROS_FATAL(__VA_ARGS__))
#define ROS_DEBUG_STREAM_ONCE(a) SIM_ONCE(ROS_DEBUG_STREAM(a))
#define ROS_INFO_STREAM_ONCE(a) SIM_ONCE(ROS_INFO_STREAM(a))
#define ROS_WARN_STREAM_ONCE(a) SIM_ONCE(ROS_WARN_STREAM(a))
#define ROS_ERROR_STREAM_ONCE(a) SIM_ONCE(ROS_ERROR_STREAM(a))
#define ROS_DEBUG_THROTTLE(p, ...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_THROTTLE(p, ...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_THROTTLE(p, ...) ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(p, ...) ROS_ERROR(__VA_ARGS__)
#define ROS_FATAL_THROTTLE(p, ...) ROS_FATAL(__VA_ARGS__)
#define ROS_DEBUG_STREAM_THROTTLE(p, a) ROS_DEBUG_STREAM(a)
#define ROS_INFO_STREAM_THROTTLE(p, a) ROS_INFO_STREAM(a)
#define ROS_WARN_STREAM_THROTTLE(p, a) ROS_WARN_STREAM(a)
#define ROS_ERROR_STREAM_THROTTLE(p, a) ROS_ERROR_STREAM(a)
#define ROS_DEBUG_COND(c, ...) do { if (c) ROS_DEBUG(__VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) ROS_INFO(__VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) ROS_WARN(__VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) ROS_ERROR(__VA_ARGS__); } while (0)
#define ROS_ASSERT(c) do { if (!(c)) { fprintf(stderr, "ROS_ASSERT failed: %s at %s:%d\n", #c, __FILE__, __LINE__); abort(); } } while (0)
#define ROS_ASSERT_MSG(c, ...) ROS_ASSERT(c)
#define ROS_BREAK() abort()
#define ROSCONSOLE_DEFAULT_NAME "ros"
namespace ros
{
namespace console
{
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
}  // namespace console
}  // namespace ros
