--------------------------- MODULE LimiterPredict ---------------------------
\* Oracle of the prediction: the footprint is moved along the commanded motion in steps of dt; the distance and turn left
\* before the first step that touches an obstacle bound the speed from which the robot can still stop.
\* Lengths in 0.1 mm, velocities 0.1 mm/s, angles 1e-4 rad, times ms, factors in 1/10000.
EXTENDS Integers, Sequences, SinTable
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m)
Sqrt(n) == RootIn(n, 0, 46341)
\* sine and cosine of degrees in 1/100000, by linear interpolation of the table (4096 per turn)
SinDeg(d) == LET q == (d % 360) * 4096  i == q \div 360  f == q % 360 IN (SinTab[i + 1] * (360 - f) + SinTab[i + 2] * f) \div 360
CosDeg(d) == SinDeg(d + 90)
\* r * s / 100000, rounded, for |r| <= 100000
MulS(r, s) == (r * (s \div 10) + (r * (s % 10)) \div 10 + 5000) \div 10000
RotX(p, d) == MulS(p[1], CosDeg(d)) - MulS(p[2], SinDeg(d))
RotY(p, d) == MulS(p[1], SinDeg(d)) + MulS(p[2], CosDeg(d))
\* even-odd rule, exact on integers
Crosses(v, w, a) == /\ (v[2] <= a[2] /\ a[2] < w[2]) \/ (w[2] <= a[2] /\ a[2] < v[2])
                    /\ LET num == (w[1] - v[1]) * (a[2] - v[2])  den == w[2] - v[2]  lhs == (a[1] - v[1]) * den IN
                       IF den > 0 THEN lhs < num ELSE lhs > num
RECURSIVE Crossings(_, _, _)
Crossings(f, i, a) == IF i > Len(f) THEN 0 ELSE (IF Crosses(f[i], f[(i % Len(f)) + 1], a) THEN 1 ELSE 0) + Crossings(f, i + 1, a)
Inside(f, a) == Crossings(f, 1, a) % 2 = 1
\* number of steps: t = 0, dt, 2 dt, ... below the horizon
Horizon(c) == Max2((1500 * c.linvel) \div c.linacc, (1500 * c.angvel) \div c.angacc) + Max2((1000 * c.dmargin) \div c.linvel, (1000 * c.yawmargin) \div c.angvel)
LastStep(c) == (Horizon(c) - 1) \div c.dt
\* distances travelled per k steps; m: command with vx, vy (0.1 mm/s), deg (degrees per step)
Speed(m) == Sqrt(m.vx * m.vx + m.vy * m.vy)
Dist(m, k, c) == (Speed(m) * c.dt * k) \div 1000
Turn(m, k) == (m.deg * k * 17453) \div 100
\* robot position after k steps (1/1000 units); each step translates along the current heading, then turns
Adv(q, k, m, c) == LET dx == (m.vx * c.dt) \div 1000  dy == (m.vy * c.dt) \div 1000  C == CosDeg(m.deg * k)  S == SinDeg(m.deg * k) IN
  <<q[1] + (dx * C) \div 100 - (dy * S) \div 100, q[2] + (dx * S) \div 100 + (dy * C) \div 100>>
Hit(ps, q, k, m, c) == \E i \in 1..Len(ps) : LET r == <<ps[i][1] - q[1] \div 1000, ps[i][2] - q[2] \div 1000>> IN
  Inside(c.foot, <<RotX(r, 0 - m.deg * k), RotY(r, 0 - m.deg * k)>>)
\* n: colliding steps so far; contact: touching at the start: the way out is free for the escape allowance
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(ps, q, k, n, contact0, m, c) ==
  IF k > LastStep(c) THEN [hit |-> FALSE, d |-> 0, yaw |-> 0]
  ELSE IF ~Hit(ps, q, k, m, c) THEN Walk(ps, Adv(q, k, m, c), k + 1, n, contact0, m, c)
  ELSE LET contact == contact0 \/ k = 0
           spent == IF contact THEN c.descape - Dist(m, k, c) <= 0 \/ c.yawescape - Abs(Turn(m, k)) <= 0 ELSE TRUE
           free == k - 1 - n IN
       IF spent THEN IF contact THEN [hit |-> TRUE, d |-> 0, yaw |-> 0] ELSE [hit |-> TRUE, d |-> Dist(m, free, c), yaw |-> Abs(Turn(m, free))]
       ELSE Walk(ps, Adv(q, k, m, c), k + 1, n + 1, contact, m, c)
\* the distance that remains when braking starts a control period and a step later
Remain(d, margin, acc, c) == LET a == (((acc * (c.period + c.dt)) \div 1000) * (c.period + c.dt)) \div 1000 IN d - margin + a - Sqrt(a * a + 2 * a * d)
\* factor from the remaining distance: sqrt(2 acc d) / v; no bound when it is not a finite number
Bound(rem, acc, v) == IF v <= 0 THEN 1000000
                       ELSE LET r == Min2(Max2(rem, 0), 40000)  s == Sqrt((2 * acc) * r) IN IF s >= 40000 THEN 1000000 ELSE (s * 10000) \div v
Slack == 4
Predict(ps, m, c) ==
  LET w == Walk(ps, <<0, 0>>, 0, 0, FALSE, m, c)  v == Speed(m)  av == Abs(m.w) IN
  IF ~w.hit THEN <<10000, 10000>>
  ELSE LET dr == Remain(w.d, c.dmargin, c.linacc, c)  yr == Remain(w.yaw, c.yawmargin, c.angacc, c)
           lo == Min2(Bound(dr - Slack, c.linacc, v), Bound(yr - Slack, c.angacc, av))
           hi == Min2(Bound(dr + Slack, c.linacc, v), Bound(yr + Slack, c.angacc, av)) IN
       IF v = 0 /\ av = 0 THEN <<10000, 10000>>
       ELSE IF w.d = 0 /\ w.yaw = 0 THEN <<0, 0>> ELSE <<Max2(0, Min2(lo, 10000) - Slack), Min2(hi + Slack, 10000 + Slack)>>
=============================================================================
