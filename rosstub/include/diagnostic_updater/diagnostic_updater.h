// Stand-in for diagnostic_updater: tasks run at force_update(), and at update() no more often than the period.
#pragma once
#include <ros/ros.h>
#include <cstdarg>
#include <diagnostic_msgs/DiagnosticArray.h>
#include <diagnostic_msgs/DiagnosticStatus.h>
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::DiagnosticStatus
{
public:
  void summary(unsigned char l, const std::string& s) { level = l; message = s; }
  void summaryf(unsigned char l, const char* f, ...) { va_list a; va_start(a, f); char b[1000]; vsnprintf(b, 1000, f, a); va_end(a); summary(l, b); }
  void mergeSummary(unsigned char l, const std::string& s) { if ((l > 0) == (level > 0)) { if (!message.empty()) message += "; "; message += s; } else if (l > level) message = s; if (l > level) level = l; }
  void clearSummary() { summary(0, ""); }
  void addf(const std::string& k, const char* f, ...) { va_list a; va_start(a, f); char b[1000]; vsnprintf(b, 1000, f, a); va_end(a); add(k, std::string(b)); }
  template <class T> void add(const std::string& k, const T& v) { std::ostringstream o; o << v; diagnostic_msgs::KeyValue kv; kv.key = k; kv.value = o.str(); values.push_back(kv); }
  void add(const std::string& k, const bool& v) { add(k, std::string(v ? "True" : "False")); }
};
typedef std::function<void(DiagnosticStatusWrapper&)> TaskFunction;
class Updater
{
  std::vector<std::pair<std::string, TaskFunction>> tasks_;
  std::string hw_;
  ros::NodeHandle nh_;
  ros::Publisher pub_;
  ros::Time next_;
  double period_ = 1.0;
public:
  Updater() : Updater(ros::NodeHandle(), ros::NodeHandle("~")) {}
  explicit Updater(ros::NodeHandle h, ros::NodeHandle ph = ros::NodeHandle("~"), const std::string& = "")
    : nh_(h), pub_(h.advertise<diagnostic_msgs::DiagnosticArray>("/diagnostics", 1)) { period_ = ph.param("diagnostic_period", 1.0); next_ = ros::Time::now() + ros::Duration(period_); }
  void setHardwareID(const std::string& s) { hw_ = s; }
  void setHardwareIDf(const char* f, ...) { hw_ = f; }
  void add(const std::string& n, TaskFunction f) { tasks_.emplace_back(n, f); }
  template <class T> void add(const std::string& n, T* c, void (T::*f)(DiagnosticStatusWrapper&)) { tasks_.emplace_back(n, [c, f](DiagnosticStatusWrapper& s) { (c->*f)(s); }); }
  void update() { if (next_ < ros::Time::now()) force_update(); }
  void force_update()
  {
    next_ = ros::Time::now() + ros::Duration(period_);
    diagnostic_msgs::DiagnosticArray a;
    a.header.stamp = ros::Time::now();
    for (auto& t : tasks_)
    {
      DiagnosticStatusWrapper s;
      s.name = t.first; s.level = 2; s.message = "No message was set"; s.hardware_id = hw_;
      t.second(s);
      a.status.push_back(s);
    }
    pub_.publish(a);
  }
  void setPeriod(double p) { period_ = p; }
  double getPeriod() const { return period_; }
  void broadcast(int, const std::string&) {}
};
}  // namespace diagnostic_updater
