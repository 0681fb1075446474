---------------------------- MODULE TrackerTrace ----------------------------
EXTENDS Tracker, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
T == Trace[l]
Def == [look_forward |-> 500, curv_forward |-> 500, k_dist |-> 1000, k_ang |-> 1000, k_avel |-> 1000, gain_at_vel |-> 0, dist_lim |-> 500, dist_stop |-> 2000,
        rotate_ang |-> 785, max_vel |-> 500, max_angvel |-> 1000, max_acc |-> 1000, max_angacc |-> 2000, acc_toc_factor |-> 900, angacc_toc_factor |-> 900,
        path_step |-> 1, goal_tolerance_dist |-> 200, goal_tolerance_ang |-> 100, stop_tolerance_dist |-> 100, stop_tolerance_ang |-> 50,
        no_position_control_dist |-> 0, min_tracking_path |-> 0, allow_backward |-> 1, limit_vel_by_avel |-> 0, check_old_path |-> 0, epsilon |-> 1,
        use_time_optimal_control |-> 1, time_optimal_control_future_gain |-> 1500, k_ang_rotation |-> 1000, k_avel_rotation |-> 1000,
        goal_tolerance_lin_vel |-> 0, goal_tolerance_ang_vel |-> 0]
Over2(a, b) == [k \in DOMAIN a |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
\* ---- state g: c (configuration), base (begin event), path, id, frame, fresh, D (possible progress), sp (speed limit), map (transform known),
\* pose (<<event>> or <<>>), pend ("" | "odom"), last (odom receive time or -1), ostamp (stamp of the last odom or -1), tick, v, w (last command), sst (last status), zero
New(e) == [b |-> e, c |-> Over2(Def, e.c), sp |-> Over2(Def, e.c).max_vel, p |-> <<>>, id |-> 0, frame |-> FALSE, fresh |-> FALSE, D |-> {0}, map |-> FALSE, pose |-> <<>>,
           pend |-> <<>>, deadline |-> -1, ostamp |-> -999999, tick |-> e.t + e.period, v |-> 0, w |-> 0, st |-> -1, shut |-> FALSE]
\* no control step or timeout is due strictly before time t
Quiet(t) == g.pend = <<>> /\ ~g.shut /\ (IF g.b.odom THEN g.deadline < 0 \/ g.deadline >= t ELSE g.tick >= t)
Stopped(e) == Len(e.tw) = 1 /\ e.tw[1] = <<0, 0>>
StatusIs(e, s) == Len(e.st) = 1 /\ e.st[1].s = s /\ e.st[1].path = g.id /\ e.st[1].now
LimitOf(q) == LET x == g.p[q.k + 1][4] IN 1000 * (IF x = -1000000 THEN g.sp ELSE x)
\* a control step with robot pose event r, outputs e, period dt
CanTrack == g.p # <<>> /\ g.frame /\ g.map
Fit(e, r, dt, d, q) ==
  LET a == e.st[1].a  s == e.st[1].s  v == e.tw[1][1]  w == e.tw[1][2]  turning == q.m \in {"arrive", "turn"}
      known == r.age = 0 \/ ~g.b.predict IN
  /\ Abs(e.st[1].d - q.dist) <= q.tol
  /\ AngleOk(g.p, q, r.yaw, a) /\ RotOk(g.c, q, a)
  /\ IF q.m = "far" THEN s = FarS /\ v = 0 /\ w = 0
     ELSE /\ s \in {FollowingS, GoalS}
          /\ (s = GoalS => GoalMay(g.c, g.p, q, a, r.v, r.w))
          /\ (known /\ GoalMust(g.c, g.p, q, a, r.v, r.w) => s = GoalS)
          /\ (known /\ StopMust(g.c, q, a) => v = 0 /\ w = 0)
          /\ \/ StopMay(g.c, q, a) /\ v = 0 /\ w = 0
             \/ /\ Limited(g.v, v, IF turning THEN 0 ELSE LimitOf(q), g.c.max_acc, dt)
                /\ Limited(g.w, w, 1000 * g.c.max_angvel, g.c.max_angacc, dt)
Slack(e, r) == IF e.exact /\ r.exact THEN 0 ELSE 75
NextD(e, r, dt) ==
  LET from == IF g.fresh THEN FirstDone(g.c, g.p, e.o, r.r, r.yaw, Slack(e, r)) ELSE g.D IN
  UNION {{q.next : q \in {x \in Outcomes(g.c, g.p, d, e.o, r.r, r.yaw, Slack(e, r)) : Fit(e, r, dt, d, x)}} : d \in from}
\* the states after a control step with outputs e (none: not allowed)
After(e, r, dt) ==
  IF ~CanTrack THEN IF StatusIs(e, NoPathS) /\ Stopped(e) THEN {[g EXCEPT !.fresh = FALSE, !.v = 0, !.w = 0, !.st = NoPathS]} ELSE {}
  ELSE IF ~(Len(e.tw) = 1 /\ Len(e.st) = 1 /\ e.st[1].path = g.id /\ e.st[1].now) THEN {}
  ELSE LET D2 == NextD(e, r, dt) IN IF D2 = {} THEN {} ELSE {[g EXCEPT !.fresh = FALSE, !.D = D2, !.v = e.tw[1][1], !.w = e.tw[1][2], !.st = e.st[1].s]}
Dt(r) == IF r.stamp - g.ostamp > g.b.maxdt THEN g.b.maxdt ELSE r.stamp - g.ostamp
Last == l < Len(Trace) /\ Trace[l + 1].op = "end"
Outs ==
  \/ /\ g.b.odom /\ g.pend # <<>> /\ T.t = g.pend[1].t
     /\ \E h \in After(T, g.pend[1], Dt(g.pend[1])) : g' = [h EXCEPT !.pend = <<>>, !.ostamp = g.pend[1].stamp]
  \/ /\ g.b.odom /\ g.pend = <<>> /\ g.deadline >= 0 /\ T.t = g.deadline /\ Stopped(T) /\ (StatusIs(T, NoPathS)) = TRUE
     /\ g' = [g EXCEPT !.deadline = -1, !.v = 0, !.w = 0, !.st = NoPathS]
  \/ /\ ~g.b.odom /\ T.t = g.tick
     /\ IF g.pose = <<>> THEN T.tw = <<>> /\ (StatusIs(T, NoPathS)) = TRUE /\ g' = [g EXCEPT !.tick = @ + g.b.period, !.st = NoPathS]
        ELSE \E h \in After(T, g.pose[1], g.b.period) : g' = [h EXCEPT !.tick = @ + g.b.period]
  \/ /\ Last /\ g.pend = <<>> /\ ~g.shut /\ T.tw = <<<<0, 0>>>> /\ T.st = <<>> /\ g' = [g EXCEPT !.shut = TRUE]   \* shutdown
Odom ==
  /\ g.b.odom /\ Quiet(T.t)
  /\ g' = [g EXCEPT !.pend = IF g.ostamp # -999999 THEN <<T>> ELSE <<>>, !.ostamp = IF @ # -999999 THEN @ ELSE T.stamp, !.deadline = IF g.b.timeout = 0 THEN -1 ELSE T.t + g.b.timeout]
Merged(e) ==
  LET m == Merge([k \in 1..Len(e.in) |-> <<e.in[k][1], e.in[k][2], e.in[k][3] % 16, IF e.withv THEN e.in[k][4] ELSE -1000000>>], <<>>, 0, <<>>) IN
  IF \E k \in 1..Len(m) : m[k][4] < 0 /\ m[k][4] # -1000000 THEN <<>> ELSE m
Step ==
  CASE T.op = "begin" -> g' = New(T)
    [] T.op = "path" -> Quiet(T.t) /\ g' = [g EXCEPT !.p = Merged(T), !.id = T.id, !.frame = T.frame, !.fresh = TRUE, !.D = {0}]
    [] T.op = "speed" -> Quiet(T.t) /\ g' = [g EXCEPT !.sp = T.v]
    [] T.op = "cfg" -> Quiet(T.t) /\ g' = [g EXCEPT !.c = Over2(@, T.c), !.sp = Over2(g.c, T.c).max_vel]
    [] T.op = "map" -> Quiet(T.t) /\ g' = [g EXCEPT !.map = T.v]
    [] T.op = "pose" -> Quiet(T.t) /\ g' = [g EXCEPT !.pose = <<T>>]
    [] T.op = "nopose" -> Quiet(T.t) /\ g' = [g EXCEPT !.pose = <<>>]
    [] T.op = "odom" -> Odom
    [] T.op = "outs" -> Outs
    [] T.op = "expect" -> g.st = GoalS /\ g.v = 0 /\ g.w = 0 /\ UNCHANGED g
    [] T.op = "end" -> g.shut /\ T.how = "returned" /\ UNCHANGED g
    [] OTHER -> FALSE
TraceInit == l = 1 /\ g = 0 /\ path = <<>> /\ done = 0 /\ robot = 0 /\ goalSeen = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, g, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
