// Stand-in for actionlib::SimpleActionClient: publishes goals and cancels, follows <name>/result of its latest goal.
#pragma once
#include <ros/ros.h>
#include <actionlib_msgs/GoalID.h>
#include <actionlib_msgs/GoalStatus.h>
namespace actionlib
{
class SimpleClientGoalState
{
public:
  enum StateEnum { PENDING, ACTIVE, RECALLED, REJECTED, PREEMPTED, ABORTED, SUCCEEDED, LOST };
  StateEnum state_;
  std::string text_;
  SimpleClientGoalState(const StateEnum& s, const std::string& t = "") : state_(s), text_(t) {}
  bool operator==(const SimpleClientGoalState& o) const { return state_ == o.state_; }
  bool operator==(const StateEnum& o) const { return state_ == o; }
  bool operator!=(const SimpleClientGoalState& o) const { return state_ != o.state_; }
  bool operator!=(const StateEnum& o) const { return state_ != o; }
  bool isDone() const { return state_ != PENDING && state_ != ACTIVE; }
  std::string getText() const { return text_; }
  std::string toString() const { static const char* n[] = { "PENDING", "ACTIVE", "RECALLED", "REJECTED", "PREEMPTED", "ABORTED", "SUCCEEDED", "LOST" }; return n[state_]; }
};
template <class A>
class SimpleActionClient
{
public:
  typedef typename std::decay<decltype(A().action_goal)>::type ActionGoal;
  typedef typename std::decay<decltype(A().action_result)>::type ActionResult;
  typedef typename std::decay<decltype(ActionGoal().goal)>::type Goal;
  typedef typename std::decay<decltype(ActionResult().result)>::type Result;
  typedef boost::shared_ptr<const Result> ResultConstPtr;
  explicit SimpleActionClient(const std::string& name, bool spin = true) : SimpleActionClient(ros::NodeHandle(), name, spin) {}
  SimpleActionClient(ros::NodeHandle nh, const std::string& name, bool = true) : nh_(nh)
  {
    pub_goal_ = nh_.advertise<ActionGoal>(name + "/goal", 10);
    pub_cancel_ = nh_.advertise<actionlib_msgs::GoalID>(name + "/cancel", 10);
    sub_ = nh_.subscribe(name + "/result", 10, &SimpleActionClient::cbResult, this);
  }
  bool waitForServer(const ros::Duration& = ros::Duration(0)) const { return true; }
  bool isServerConnected() const { return true; }
  template <class... C>
  void sendGoal(const Goal& g, C...)
  {
    static int n = 0;
    ActionGoal m;
    m.header.stamp = ros::Time::now();
    m.goal_id.stamp = ros::Time::now();
    m.goal_id.id = "goal_" + std::to_string(++n);
    m.goal = g;
    id_ = m.goal_id.id;
    st_ = SimpleClientGoalState::PENDING;
    pub_goal_.publish(m);
  }
  void cancelAllGoals() { pub_cancel_.publish(actionlib_msgs::GoalID()); }
  void cancelGoalsAtAndBeforeTime(const ros::Time& t) { actionlib_msgs::GoalID g; g.stamp = t; pub_cancel_.publish(g); }
  void cancelGoal() { if (id_.empty()) return; actionlib_msgs::GoalID g; g.id = id_; pub_cancel_.publish(g); }
  void stopTrackingGoal() { id_.clear(); }
  SimpleClientGoalState getState() const { return id_.empty() ? SimpleClientGoalState(SimpleClientGoalState::LOST) : SimpleClientGoalState(st_, text_); }
  ResultConstPtr getResult() const { return res_; }

private:
  ros::NodeHandle nh_;
  ros::Publisher pub_goal_, pub_cancel_;
  ros::Subscriber sub_;
  std::string id_, text_;
  SimpleClientGoalState::StateEnum st_ = SimpleClientGoalState::LOST;
  boost::shared_ptr<Result> res_;
  void cbResult(const boost::shared_ptr<const ActionResult>& m)
  {
    typedef actionlib_msgs::GoalStatus S;
    if (m->status.goal_id.id != id_ || id_.empty() || (st_ != SimpleClientGoalState::PENDING && st_ != SimpleClientGoalState::ACTIVE)) return;
    switch (m->status.status)
    {
      case S::ACTIVE: st_ = SimpleClientGoalState::ACTIVE; return;
      case S::PENDING: st_ = SimpleClientGoalState::PENDING; return;
      case S::PREEMPTED: st_ = SimpleClientGoalState::PREEMPTED; break;
      case S::SUCCEEDED: st_ = SimpleClientGoalState::SUCCEEDED; break;
      case S::ABORTED: st_ = SimpleClientGoalState::ABORTED; break;
      case S::REJECTED: st_ = SimpleClientGoalState::REJECTED; break;
      case S::RECALLED: st_ = SimpleClientGoalState::RECALLED; break;
      case S::LOST: st_ = SimpleClientGoalState::LOST; break;
      default: return;
    }
    text_ = m->status.text;
    res_ = boost::make_shared<Result>(m->result);
  }
};
}  // namespace actionlib
