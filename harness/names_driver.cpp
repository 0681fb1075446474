// C25: any node of the repository, run unmodified; reports the topic and service names it uses.
#include <std_msgs/Empty.h>
#include <std_msgs/Float32.h>
#define main node_main
#include NODE_SRC
#undef main
#ifdef NODE_SRC2
#include NODE_SRC2
#endif
#define ND_TF
#include "node.h"
#include <std_msgs/String.h>
namespace nd
{
static int level_;
static bool set_, local_;
int runNode()
{
  int c = 1;
  char n[] = "node";
  char* v[] = { n, nullptr };
  return node_main(c, v);
}
static std::string list(const std::set<std::string>& s)
{
  std::string r = "[";
  for (const auto& x : s) r += (r.size() > 1 ? ",\"" : "\"") + x + "\"";
  return r + "]";
}
bool preamble(const Tok& t)
{
  if (t[0] == "ns") { sim::W().node_ns = t[1]; return true; }
  return false;
}
void onBegin(const Tok& t)
{
  // begin <node> <level | none> <paths: legacy names given by parameters as "key=value" ...>
  set_ = t[2] != "none";
  if (set_) sim::setParam("/neonavigation_compatible", XmlRpc::XmlRpcValue(i(t[2])));
  std::string js = "{";
  for (size_t k = 3; k < t.size(); k++)
  {
    const size_t q = t[k].find('=');
    sim::setParam(sim::W().node_ns + "/" + t[1] + "/" + t[k].substr(0, q), XmlRpc::XmlRpcValue(t[k].substr(q + 1)));
    js += (k > 3 ? ",\"" : "\"") + t[k].substr(0, q) + "\":\"" + t[k].substr(q + 1) + "\"";
  }
  vj::Ev("begin").s("node", t[1]).s("ns", sim::W().node_ns).b("set", set_).i("level", set_ ? i(t[2]) : 0).raw("names", js + "}").b("named", t.size() > 3);
}
static void names()
{
  sim::cleanup();
  std::set<std::string> subs;
  for (const auto& s : sim::W().subs) subs.insert(s->topic);
  vj::Ev("names").s("self", ros::this_node::getName()).raw("pub", list(sim::W().advertised)).raw("sub", list(subs)).raw("srv", list(sim::W().services_adv));
}
void handle(const Tok& t, const std::string&)
{
  if (t[0] == "names") names();
  else if (t[0] == "say")
    // one message on every topic that accepts any type
    for (auto s : std::vector<boost::shared_ptr<sim::SubImpl>>(sim::W().subs)) { if (s->any && s->active) { std_msgs::String m; m.data = "x"; sim::inject(s->topic, m); } }
}
void finished(const std::string& how) { vj::Ev("end").s("how", how).raw("pub", list(sim::W().advertised)).raw("srv", list(sim::W().services_adv)); }
}  // namespace nd
ND_MAIN
