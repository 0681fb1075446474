// Runs an unmodified ROS node (its .cpp included with main renamed) on the deterministic ROS stand-in.
// A script file holds episodes, each starting with a "begin ..." line; every episode runs in its own forked
// process (fresh globals) and appends its events to the same trace. Lines before "start" configure the world.
#ifndef VERIF_NODE_H
#define VERIF_NODE_H
#include <ros/ros.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef ND_TF
#include <tf2_ros/buffer.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
#endif
#include "jout.h"
namespace nd
{
typedef std::vector<std::string> Tok;
inline Tok tok(const std::string& l)
{
  std::istringstream is(l);
  Tok t;
  std::string s;
  while (is >> s) t.push_back(s);
  return t;
}
inline long long us(const ros::Time& t) { return (static_cast<long long>(t.toNSec()) - 1000LL * 1000000000LL) / 1000; }
inline long long now() { return us(ros::Time::now()); }
inline double d(const std::string& s) { return atof(s.c_str()); }
inline int i(const std::string& s) { return atoi(s.c_str()); }
#ifdef ND_TF
// tf <parent> <child> <x> <y> <z> <yaw> <pitch> <roll> <static | seconds from now>
inline bool tfLine(const Tok& t)
{
  if (t[0] == "notf") { sim::removeTf(t[1]); return true; }
  if (t[0] != "tf") return false;
  geometry_msgs::TransformStamped m;
  m.header.frame_id = t[1]; m.child_frame_id = t[2];
  m.transform.translation.x = d(t[3]); m.transform.translation.y = d(t[4]); m.transform.translation.z = d(t[5]);
  tf2::Quaternion q;
  q.setRPY(t.size() > 8 ? d(t[8]) : 0, t.size() > 7 ? d(t[7]) : 0, d(t[6]));
  m.transform.rotation = tf2::toMsg(q);
  const bool st = t.size() > 9 && t[9] == "static";
  m.header.stamp = ros::Time::now() + ros::Duration(!st && t.size() > 9 ? d(t[9]) : 0);
  sim::setTf(m, st);
  return true;
}
#else
inline bool tfLine(const Tok&) { return false; }
#endif
// supplied by each driver
void onBegin(const Tok& t);                 // the begin event, sinks
bool preamble(const Tok& t);              // extra configuration lines
void handle(const Tok& t, const std::string& line);  // script lines while the node runs
void finished(const std::string& how);    // after the node's main has returned
int runNode();

inline int episode(const std::vector<std::string>& lines)
{
  sim::World& w = sim::W();
  size_t k = 0;
  Tok first = tok(lines[0]);
  for (k = 1; k < lines.size() && lines[k] != "start"; k++)
  {
    Tok t = tok(lines[k]);
    if (t[0] == "param") { size_t p = lines[k].find(t[1]) + t[1].size(); sim::setParam(t[1], sim::json(lines[k].substr(p))); }
    else if (t[0] == "clock") w.now = ros::Time(d(t[1]));
    else if (t[0] == "realtime") w.sim_time = false;
    else if (t[0] == "nsub") w.num_subs[t[1]] = i(t[2]);
    else if (tfLine(t)) {}
    else if (!preamble(t)) { fprintf(stderr, "bad preamble line %s\n", lines[k].c_str()); return 3; }
  }
  for (k++; k < lines.size(); k++) w.lines.push_back(lines[k]);
  w.exec = [](const std::string& l) { Tok t = tok(l); if (!tfLine(t)) handle(t, l); };
  onBegin(first);
  std::string how = "returned";
  try { runNode(); }
  catch (const std::exception& e) { how = "exception"; if (sim::verbose()) fprintf(stderr, "node ended by exception: %s\n", e.what()); }
  finished(how);
  fflush(vj::out());
  return 0;
}
inline int mainLoop(int argc, char** argv)
{
  if (argc < 3) return 3;
  std::ifstream is(argv[1]);
  std::vector<std::vector<std::string>> eps;
  std::string l;
  while (std::getline(is, l))
  {
    if (l.empty()) continue;
    if (l.compare(0, 5, "begin") == 0) eps.emplace_back();
    if (eps.empty()) return 3;
    eps.back().push_back(l);
  }
  vj::open(argv[2]);
  int n = 0;
  for (auto& e : eps)
  {
    fflush(vj::out());
    pid_t p = fork();
    if (p == 0)
    {
      int r = episode(e);
      fflush(vj::out());
      _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    {
      fprintf(stderr, "\nepisode %d ended with status %d\n", n, st);
      return WIFEXITED(st) ? WEXITSTATUS(st) : 97;
    }
    n++;
  }
  return 0;
}
}  // namespace nd
#define ND_MAIN int main(int argc, char** argv) { return nd::mainLoop(argc, argv); }
#endif
