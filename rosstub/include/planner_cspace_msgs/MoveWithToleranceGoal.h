// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
#include <geometry_msgs/PoseStamped.h>
namespace planner_cspace_msgs
{
struct MoveWithToleranceGoal
{
  geometry_msgs::PoseStamped target_pose;
  uint8_t continuous_movement_mode{};
  float goal_tolerance_lin{};
  float goal_tolerance_ang{};
  float goal_tolerance_ang_finish{};
  typedef boost::shared_ptr<MoveWithToleranceGoal> Ptr;
  typedef boost::shared_ptr<const MoveWithToleranceGoal> ConstPtr;
  template <class S> void visit(S& s) { s.f("target_pose", target_pose); s.f("continuous_movement_mode", continuous_movement_mode); s.f("goal_tolerance_lin", goal_tolerance_lin); s.f("goal_tolerance_ang", goal_tolerance_ang); s.f("goal_tolerance_ang_finish", goal_tolerance_ang_finish); }
  static const char* rosDataType() { return "planner_cspace_msgs/MoveWithToleranceGoal"; }
};
typedef MoveWithToleranceGoal::Ptr MoveWithToleranceGoalPtr; typedef MoveWithToleranceGoal::ConstPtr MoveWithToleranceGoalConstPtr;
inline bool operator==(const MoveWithToleranceGoal& a, const MoveWithToleranceGoal& b) { return a.target_pose == b.target_pose && a.continuous_movement_mode == b.continuous_movement_mode && a.goal_tolerance_lin == b.goal_tolerance_lin && a.goal_tolerance_ang == b.goal_tolerance_ang && a.goal_tolerance_ang_finish == b.goal_tolerance_ang_finish; }
inline bool operator!=(const MoveWithToleranceGoal& a, const MoveWithToleranceGoal& b) { return !(a == b); }
}  // namespace
