---------------------------- MODULE TrackerModel ----------------------------
(* The control step put in every pose of a bounded area, on paths with reversals and in-place turns: what the rules of
   Tracker guarantee whatever the robot does. *)
EXTENDS Tracker
CONSTANTS TolDist, StopDist
VARIABLES last, reached, goalAt
mvars == <<path, done, robot, goalSeen, last, reached, goalAt>>
Cfg == [look_forward |-> 0, dist_stop |-> 300, rotate_ang |-> 785, goal_tolerance_dist |-> TolDist, goal_tolerance_ang |-> 100, stop_tolerance_dist |-> StopDist,
        stop_tolerance_ang |-> 50, no_position_control_dist |-> 0, min_tracking_path |-> 0, allow_backward |-> 1, goal_tolerance_lin_vel |-> 0, goal_tolerance_ang_vel |-> 0]
MInit == Init /\ last = <<>> /\ reached = {} /\ goalAt = 0
Yaws == {0, 4, 8, 12}
Drive == \E r \in Places : \E q \in Outcomes(Cfg, path, done, r, r, 0, 0) :
  /\ done' = q.next /\ robot' = r /\ last' = <<q>>
  /\ reached' = IF q.m = "arrive" /\ q.g < Len(path) THEN reached \cup {q.g} ELSE reached
  /\ UNCHANGED <<path, goalSeen, goalAt>>
MNext == Drive
MSpec == MInit /\ [][MNext]_mvars
\* some outcome is possible in every pose
Total == \A r \in Places : Outcomes(Cfg, path, done, r, r, 0, 0) # {}
\* progress never moves back, so never behind a local goal that was reached
Forward == [][done' >= done]_mvars
Kept == \A k \in reached : done >= k
\* the goal can only be reported when no local goal is left and the remaining length, measured on the way ahead, is within the tolerance
GoalReal == \A q \in {last[k] : k \in 1..Len(last)} :
  q.m \in {"arrive", "follow", "turn"} /\ GoalMay(Cfg, path, q, 0, 0, 0) =>
    /\ q.g = Len(path)
    /\ Abs(q.dist) <= 10 * TolDist + q.tol
    /\ (q.m = "follow" => D100(path[Len(path)], robot) <= 10 * TolDist + 10 * Cfg.dist_stop + 2 * q.tol)
\* farther than the stop distance from every piece: never following
FarStops == \A q \in {last[k] : k \in 1..Len(last)} :
  q.m = "follow" => LET b == path[q.k + 1] IN Abs(IF q.k + 1 >= Len(path) THEN D100(b, robot) ELSE LineDist(path[MaxI(0, q.k - 1) + 1], b, robot)) <= 10 * Cfg.dist_stop + q.tol
=============================================================================
