// Stand-in for actionlib::SimpleActionServer with the state rules of the original, on <name>/goal, /cancel, /result, /feedback.
#pragma once
#include <ros/ros.h>
#include <actionlib_msgs/GoalID.h>
#include <actionlib_msgs/GoalStatus.h>
namespace actionlib
{
template <class A>
class SimpleActionServer
{
public:
  typedef typename std::decay<decltype(A().action_goal)>::type ActionGoal;
  typedef typename std::decay<decltype(A().action_result)>::type ActionResult;
  typedef typename std::decay<decltype(A().action_feedback)>::type ActionFeedback;
  typedef typename std::decay<decltype(ActionGoal().goal)>::type Goal;
  typedef typename std::decay<decltype(ActionResult().result)>::type Result;
  typedef typename std::decay<decltype(ActionFeedback().feedback)>::type Feedback;
  typedef boost::shared_ptr<const Goal> GoalConstPtr;
  typedef boost::function<void(const GoalConstPtr&)> ExecuteCallback;

private:
  struct H
  {
    actionlib_msgs::GoalStatus st;
    boost::shared_ptr<Goal> goal;
  };
  typedef boost::shared_ptr<H> HP;
  ros::NodeHandle nh_;
  std::string name_;
  ros::Publisher pub_result_, pub_feedback_;
  ros::Subscriber sub_goal_, sub_cancel_;
  HP cur_, next_;
  std::vector<HP> all_;
  bool new_goal_ = false, preempt_ = false, new_preempt_ = false;
  boost::function<void()> goal_cb_, preempt_cb_;
  void result(const HP& h, int status, const std::string& text, const Result& r)
  {
    h->st.status = status;
    h->st.text = text;
    ActionResult m;
    m.header.stamp = ros::Time::now();
    m.status = h->st;
    m.result = r;
    pub_result_.publish(m);
  }
  void cancelled(const HP& h, const Result& r, const std::string& text)
  {
    typedef actionlib_msgs::GoalStatus S;
    const int s = h->st.status;
    if (s == S::PENDING || s == S::RECALLING) result(h, S::RECALLED, text, r);
    else if (s == S::ACTIVE || s == S::PREEMPTING) result(h, S::PREEMPTED, text, r);
  }
  void terminal(int status, const Result& r, const std::string& text)
  {
    typedef actionlib_msgs::GoalStatus S;
    if (cur_ && (cur_->st.status == S::ACTIVE || cur_->st.status == S::PREEMPTING)) result(cur_, status, text, r);
  }
  void cbGoal(const boost::shared_ptr<const ActionGoal>& m)
  {
    for (auto& h : all_) if (h->st.goal_id.id == m->goal_id.id) return;
    HP h(new H);
    h->st.goal_id = m->goal_id;
    if (h->st.goal_id.stamp == ros::Time()) h->st.goal_id.stamp = ros::Time::now();
    h->st.status = actionlib_msgs::GoalStatus::PENDING;
    h->goal = boost::make_shared<Goal>(m->goal);
    all_.push_back(h);
    if ((!cur_ || h->st.goal_id.stamp >= cur_->st.goal_id.stamp) && (!next_ || h->st.goal_id.stamp >= next_->st.goal_id.stamp))
    {
      if (next_ && next_ != cur_) cancelled(next_, Result(), "This goal was canceled because another goal was received by the simple action server");
      next_ = h;
      new_goal_ = true;
      new_preempt_ = false;
      if (isActive()) { preempt_ = true; if (preempt_cb_) preempt_cb_(); }
      if (goal_cb_) goal_cb_();
    }
    else cancelled(h, Result(), "This goal was canceled because another goal was received by the simple action server");
  }
  void cbCancel(const boost::shared_ptr<const actionlib_msgs::GoalID>& m)
  {
    typedef actionlib_msgs::GoalStatus S;
    const auto list = all_;
    for (auto& h : list)
    {
      if (!((m->id.empty() && m->stamp == ros::Time()) || m->id == h->st.goal_id.id || (m->stamp != ros::Time() && h->st.goal_id.stamp <= m->stamp))) continue;
      if (h->st.status == S::PENDING) h->st.status = S::RECALLING;
      else if (h->st.status == S::ACTIVE) h->st.status = S::PREEMPTING;
      else continue;
      if (h == cur_) { preempt_ = true; if (preempt_cb_) preempt_cb_(); }
      else if (h == next_) new_preempt_ = true;
    }
  }

public:
  SimpleActionServer(ros::NodeHandle nh, const std::string& name, bool auto_start = false) : nh_(nh), name_(name) { if (auto_start) start(); }
  SimpleActionServer(const std::string& name, bool auto_start = false) : name_(name) { if (auto_start) start(); }
  void start()
  {
    pub_result_ = nh_.advertise<ActionResult>(name_ + "/result", 50);
    pub_feedback_ = nh_.advertise<ActionFeedback>(name_ + "/feedback", 50);
    sub_goal_ = nh_.subscribe(name_ + "/goal", 50, &SimpleActionServer::cbGoal, this);
    sub_cancel_ = nh_.subscribe(name_ + "/cancel", 50, &SimpleActionServer::cbCancel, this);
  }
  void shutdown() {}
  void registerGoalCallback(boost::function<void()> f) { goal_cb_ = f; }
  void registerPreemptCallback(boost::function<void()> f) { preempt_cb_ = f; }
  bool isNewGoalAvailable() { return new_goal_; }
  bool isPreemptRequested() { return preempt_; }
  bool isActive()
  {
    typedef actionlib_msgs::GoalStatus S;
    return cur_ && (cur_->st.status == S::ACTIVE || cur_->st.status == S::PREEMPTING);
  }
  GoalConstPtr acceptNewGoal()
  {
    typedef actionlib_msgs::GoalStatus S;
    if (!new_goal_ || !next_) { ROS_ERROR("Attempting to accept the next goal when a new goal is not available"); return GoalConstPtr(); }
    if (isActive() && cur_ != next_) cancelled(cur_, Result(), "This goal was canceled because another goal was received by the simple action server");
    cur_ = next_;
    new_goal_ = false;
    preempt_ = new_preempt_;
    new_preempt_ = false;
    if (cur_->st.status == S::PENDING) cur_->st.status = S::ACTIVE;
    else if (cur_->st.status == S::RECALLING) cur_->st.status = S::PREEMPTING;
    return cur_->goal;
  }
  void setSucceeded(const Result& r = Result(), const std::string& t = "") { terminal(actionlib_msgs::GoalStatus::SUCCEEDED, r, t); }
  void setAborted(const Result& r = Result(), const std::string& t = "") { terminal(actionlib_msgs::GoalStatus::ABORTED, r, t); }
  void setPreempted(const Result& r = Result(), const std::string& t = "") { if (cur_) cancelled(cur_, r, t); }
  void publishFeedback(const Feedback& f)
  {
    if (!cur_) return;
    ActionFeedback m;
    m.header.stamp = ros::Time::now();
    m.status = cur_->st;
    m.feedback = f;
    pub_feedback_.publish(m);
  }
};
}  // namespace actionlib
