------------------------------- MODULE Tracker -------------------------------
(* The path tracking node: what it may command and report in a control step, for a path in centimetres and sixteenths of
   a turn, a robot pose, and the progress already made along the path (done). Lengths are in 1/100 cm, angles in
   micro radians, speeds in micrometres (micro radians) per second, accelerations in mm(mrad)/s^2, times in ms. *)
EXTENDS Path2D, SinTable
NoPathS == 0
FollowingS == 1
FarS == 3
GoalS == 2
MaxI(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Turn == 6283185
HalfTurn == 3141593
NormA(a) == LET m == a % Turn IN IF m > HalfTurn THEN m - Turn ELSE m
AngNear(a, b, tol) == Abs(NormA(a - b)) <= tol
YawOf(q) == q[3] * 392699
\* sine and cosine of micro radians, x100000
SinU(a) == LET m == a % Turn  k == ((m \div 1000) * 4096 * 10 + ((m % 1000) * 4096) \div 100) \div 62832 IN SinTab[(k % 4096) + 1]
CosU(a) == SinU(a + 1570796)
\* a * 100 / sqrt(l2), for big a
Quo(a, l2) == LET b == Abs(a)  s == IF a < 0 THEN -1 ELSE 1 IN
  IF l2 = 0 THEN 0
  ELSE s * (IF l2 > 2000 THEN (IF b < 200000 THEN (b * 10000) \div ISqrt(l2 * 10000) ELSE (((b \div 10) * 1000) \div (ISqrt(l2 * 10000) \div 100)))
       ELSE IF b < 20000 THEN (b * 100000) \div ISqrt(l2 * 1000000) ELSE ((b * 1000) \div ISqrt(l2 * 1000000)) * 100)
\* distance of segment end b to the projection of c on the line a-b, signed: positive before the end
Ahead(a, b, c) == Quo(Dot(b[1] - a[1], b[2] - a[2], b[1] - c[1], b[2] - c[2]), Sq(a, b))
LineDist(a, b, c) == Quo((b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]), Sq(a, b))
\* remaining length to the end of p[0..e) when the nearest point index is n and c is projected on the piece before n
RemainTo(p, n, e, c) ==
  LET a == p[MaxI(0, n - 1) + 1]  b == p[n + 1]  h == Ahead(a, b, c) IN
  IF n + 1 >= e THEN IF e < 2 THEN 0 ELSE h ELSE Abs(h) + LenTo(p, n, e - 1)
Len100Of(p) == IF Len(p) < 2 THEN 0 ELSE LenTo(p, 0, Len(p) - 1)
\* candidate nearest indices when searching from done to the local goal g (slk: slack of the comparison)
Nearest(p, d, g, o, slk) ==
  LET rg == IF d > 0 THEN 100 ELSE 0
      sure == InRange(p, d, g, rg, 0 - 3 * Len(p))  poss == InRange(p, d, g, rg, 3 * Len(p))
      best == Best(p, d, sure, o)  lim == best + slk + 25 + 10 * MinOf(Cardinality(poss), 12) IN
  {j \in poss : Abs(SegDist(p[j], p[j + 1], o)) <= lim} \cup (IF D100(p[d + 1], o) <= lim /\ ~(d + 1 \in sure /\ SegDist(p[d + 1], p[d + 2], o) < 0) THEN {d} ELSE {})
\* ---- configuration record c: lengths in mm (x10 = 1/100 cm), angles in mrad
\* one control step: the set of possible outcomes for progress d. o: look-ahead point, r: robot, yaw, sp: current speed limit (mm/s)
\* outcome: [m: mode, d, ds, s (status set), next]; the angle is a predicate on the observed one, see AngleOk
Below(x, lim, tol) == IF Abs(x) < lim - tol THEN {TRUE} ELSE IF Abs(x) > lim + tol THEN {FALSE} ELSE {TRUE, FALSE}
Over(x, lim, tol) == IF Abs(x) > lim + tol THEN {TRUE} ELSE IF Abs(x) < lim - tol THEN {FALSE} ELSE {TRUE, FALSE}
Outcomes(c, p, d, o, r, yaw, slk) ==
  LET n == Len(p)  total == Len100Of(p) IN
  UNION {UNION {
    LET pr == MaxI(0, k - 1)  a == p[pr + 1]  b == p[k + 1]
        deg == Sq(a, b) = 0
        noPos == total < 10 * c.no_position_control_dist
        tol == slk + 30 + n + total \div 1000
        rl == IF noPos \/ deg THEN 0 ELSE RemainTo(p, k, g, o)
        dr == IF noPos \/ deg THEN 0 ELSE RemainTo(p, k, n, o)
        rr == IF noPos \/ deg THEN 0 ELSE RemainTo(p, k, n, r)
        far == IF k + 1 >= n THEN D100(b, o) ELSE LineDist(a, b, o)
        short == total < 10 * c.min_tracking_path \/ deg IN
    UNION {
      IF arr THEN {[m |-> "arrive", g |-> g, k |-> k, dir |-> 0, dist |-> IF deg \/ total < 10 * c.stop_tolerance_dist THEN 0 ELSE dr,
                    raw |-> IF deg \/ total < 10 * c.stop_tolerance_dist THEN 0 ELSE rr, tol |-> tol, ang |-> NormA(yaw - YawOf(p[g])),
                    next |-> IF g # n THEN g ELSE MaxI(d, k - 1)]}
      ELSE UNION {
           {[m |-> "turn", g |-> g, k |-> k, dir |-> dd, dist |-> IF total < 10 * c.stop_tolerance_dist THEN 0 ELSE dr,
             raw |-> IF total < 10 * c.stop_tolerance_dist THEN 0 ELSE rr, tol |-> tol, ang |-> 0, next |-> MaxI(d, k - 1)]}
           \cup {[m |-> IF f THEN "far" ELSE "follow", g |-> g, k |-> k, dir |-> dd, dist |-> dr, raw |-> rr, tol |-> tol, ang |-> 0,
                  next |-> IF f THEN d ELSE MaxI(d, k - 1)] : f \in Over(far, 10 * c.dist_stop, tol)}
           : dd \in IF c.allow_backward = 0 THEN {1} ELSE IF DirOf(a, b) = 0 THEN {-1, 1} ELSE {DirOf(a, b)}}
      : arr \in IF short THEN {TRUE} ELSE Below(rl, 10 * c.stop_tolerance_dist, tol)}
    : k \in Nearest(p, d, g, o, slk)} : g \in LocalGoal(p, d, n, c.allow_backward = 1, TRUE, 0)}
\* progress after the first step on a new path, whose status is not reported
FirstDone(c, p, o, r, yaw, slk) == {q.next : q \in Outcomes(c, p, 0, o, r, yaw, slk)}
\* is angle a (robot heading yaw) consistent with outcome q
AngleOk(p, q, yaw, a) ==
  IF q.m = "arrive" THEN AngNear(a, q.ang, 100)
  ELSE LET s == p[MaxI(0, q.k - 1) + 1]  e == p[q.k + 1]  h == (yaw - a) + (IF q.dir < 0 THEN HalfTurn ELSE 0)
           dx == e[1] - s[1]  dy == e[2] - s[2]  cr == dx * SinU(h) - dy * CosU(h)  dt == dx * CosU(h) + dy * SinU(h) IN
       dt > 0 /\ Abs(cr) <= dt \div 200
RotOk(c, q, a) == q.m = "arrive" \/ (IF q.m = "turn" THEN Abs(a) >= 1000 * c.rotate_ang - 500 ELSE Abs(a) <= 1000 * c.rotate_ang + 500)
\* may / must the goal be reported; odometry speeds v, w in mm/s, mrad/s; rawknown: no prediction is involved
GoalMust(c, p, q, a, v, w) ==
  /\ q.g = Len(p) /\ Abs(q.dist) < 10 * c.goal_tolerance_dist - q.tol /\ Abs(q.raw) < 10 * c.goal_tolerance_dist - q.tol
  /\ Abs(a) < 1000 * c.goal_tolerance_ang - 5
  /\ (c.goal_tolerance_lin_vel = 0 \/ Abs(v) < c.goal_tolerance_lin_vel - 1) /\ (c.goal_tolerance_ang_vel = 0 \/ Abs(w) < c.goal_tolerance_ang_vel - 1)
GoalMay(c, p, q, a, v, w) ==
  /\ q.g = Len(p) /\ Abs(q.dist) < 10 * c.goal_tolerance_dist + q.tol /\ Abs(a) < 1000 * c.goal_tolerance_ang + 5
  /\ (c.goal_tolerance_lin_vel = 0 \/ Abs(v) < c.goal_tolerance_lin_vel + 1) /\ (c.goal_tolerance_ang_vel = 0 \/ Abs(w) < c.goal_tolerance_ang_vel + 1)
StopMust(c, q, a) == Abs(q.dist) < 10 * c.stop_tolerance_dist - q.tol /\ Abs(q.raw) < 10 * c.stop_tolerance_dist - q.tol /\ Abs(a) < 1000 * c.stop_tolerance_ang - 5
StopMay(c, q, a) == Abs(q.dist) < 10 * c.stop_tolerance_dist + q.tol /\ Abs(a) < 1000 * c.stop_tolerance_ang + 5
\* limiter: from v0 to v1 in dt ms with acceleration acc and speed limit lim
StepTol(v0, v1) == 5 + (Abs(v0) + Abs(v1)) \div 200000
Limited(v0, v1, lim, acc, dt) == Abs(v1 - v0) <= acc * dt + StepTol(v0, v1) /\ Abs(v1) <= MaxI(lim, Abs(v0) - acc * dt) + StepTol(v0, v1)
=============================================================================
