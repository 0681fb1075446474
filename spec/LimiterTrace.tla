---------------------------- MODULE LimiterTrace ----------------------------
EXTENDS Limiter, LimiterPredict, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
T == Trace[l]
\* poses: samples [t, x, y, q] of the robot in the fixed frame; frames related by whole quarter turns
Quarter(p, q) == CASE q % 4 = 0 -> p [] q % 4 = 1 -> <<0 - p[2], p[1], p[3]>> [] q % 4 = 2 -> <<0 - p[1], 0 - p[2], p[3]>> [] OTHER -> <<p[2], 0 - p[1], p[3]>>
Into(p, f) == LET r == Quarter(p, f.q) IN <<r[1] + f.x, r[2] + f.y, r[3]>>
From(p, f) == Quarter(<<p[1] - f.x, p[2] - f.y, p[3]>>, 4 - (f.q % 4))
Last(s) == s[Len(s)]
KnownAt(t) == g.static \/ \E i \in 1..Len(g.poses) : g.poses[i].t = t
PoseAt(t) == IF ~g.static /\ \E i \in 1..Len(g.poses) : g.poses[i].t = t THEN g.poses[CHOOSE i \in 1..Len(g.poses) : g.poses[i].t = t] ELSE Last(g.poses)
Eff(t) == IF KnownAt(t) THEN t ELSE Last(g.poses).t
Placeable == Len(g.poses) > 0 /\ Len(g.sensor) > 0
InFixed(pts, t) == [i \in 1..Len(pts) |-> Into(Into(pts[i], g.sensor[1]), PoseAt(t))]
RECURSIVE ZSelect(_, _)
ZSelect(ps, i) == IF i > Len(ps) THEN <<>> ELSE (IF ps[i][3] >= g.c.zmin /\ ps[i][3] <= g.c.zmax THEN <<ps[i]>> ELSE <<>>) \o ZSelect(ps, i + 1)
Empty == IF g.c.allowempty THEN <<10000, 10000>> ELSE <<0, 0>>
Prediction ==
  IF g.accum = <<>> THEN Empty
  ELSE IF g.poses = <<>> THEN <<0, 0>>
  ELSE LET ps == ZSelect([i \in 1..Len(g.accum) |-> From(g.accum[i], PoseAt(g.accStamp))], 1) IN
       IF ps = <<>> THEN Empty ELSE Predict(ps, g.cmd, g.c)
\* ---- outputs
Zero(w) == w = <<0, 0, 0>>
Cap(v, cap) == IF cap <= 0 THEN 0 ELSE Min2(v, cap)
MatchOut(w, m, r) ==
  LET v == Speed(m)  av == Abs(m.w)  o == Sqrt(w[1] * w[1] + w[2] * w[2])  tol == 3
      vlo == (r[1] * v) \div 10000  vhi == (r[2] * v) \div 10000  alo == (r[1] * av) \div 10000  ahi == (r[2] * av) \div 10000 IN
  /\ o >= Cap(vlo, g.c.maxlin) - tol /\ o <= Cap(vhi, g.c.maxlin) + tol
  /\ Abs(w[1] * m.vy - w[2] * m.vx) <= tol * (v + 1) /\ w[1] * m.vx + w[2] * m.vy >= 0 - tol * (v + 1)
  /\ Abs(w[3]) >= Cap(alo, g.c.maxang) - tol /\ Abs(w[3]) <= Cap(ahi, g.c.maxang) + tol
  /\ (w[3] >= 0 - 1 \/ m.w < 0) /\ (w[3] <= 1 \/ m.w > 0)
  \* one common factor unless a cap applies
  /\ (vhi < g.c.maxlin /\ ahi < g.c.maxang) => Abs(o * av - Abs(w[3]) * v) <= 2 * (v + av)
WantOut(w) == CASE ModeOf(g.s, T.t, g.c) = "raw" -> MatchOut(w, g.cmd, <<10000, 10000>>) [] ModeOf(g.s, T.t, g.c) = "zero" -> Zero(w) [] OTHER -> MatchOut(w, g.cmd, g.s.r)
StatusOk(x, n) == x.r >= n.r[1] - 3 /\ x.r <= n.r[2] + 3 /\ x.cloud = n.has /\ x.wd = n.stop
\* ---- time: ticks without data have no effect
Norm(s, t) == IF s.has \/ s.tick > t THEN s ELSE [s EXCEPT !.tick = t + g.c.period - ((t - g.t0) % g.c.period)]
Quiet(t) == ~g.pend /\ (~g.s.has \/ g.s.tick > t) /\ (g.c.watchdog = 0 \/ g.s.wdNext > t)
In(f(_)) == /\ Quiet(T.t) /\ g' = f([g EXCEPT !.s = Norm(@, T.t)])
AtTick == g.s.has /\ g.s.tick = T.t
AtWd == g.c.watchdog > 0 /\ g.s.wdNext = T.t
\* the watchdog alone at a time when an idle tick is due as well
Fire(n) == IF AtWd THEN AfterWatchdog(n, T.t, g.c) ELSE n
Set(x, k, v) == [x EXCEPT ![k] = v]
Begin == [c |-> T.c, t0 |-> T.t, s |-> Start(T.c, T.t), poses |-> <<>>, sensor |-> <<>>, static |-> T.c.static, accum |-> <<>>, accStamp |-> 0 - 1,
          cmd |-> [vx |-> 0, vy |-> 0, deg |-> 0, w |-> 0], pend |-> FALSE]
AddCloud(x) ==
  LET base == IF g.s.clear THEN <<>> ELSE g.accum  bst == IF g.s.clear THEN 0 - 1 ELSE g.accStamp IN
  IF T.pts = <<>> THEN [x EXCEPT !.s = AfterCloud(@, T.stamp), !.accum = base, !.accStamp = bst]
  ELSE IF ~Placeable THEN x
  ELSE [x EXCEPT !.s = AfterCloud(@, T.stamp), !.accum = base \o InFixed(T.pts, T.stamp), !.accStamp = Max2(bst, Eff(T.stamp))]
Scale == 10000
Step ==
  CASE T.op = "begin" -> g' = Begin
    [] T.op = "pose" -> In(LAMBDA x : [x EXCEPT !.poses = IF g.static THEN <<T>> ELSE Append(@, T)])
    [] T.op = "nopose" -> In(LAMBDA x : [x EXCEPT !.poses = <<>>])
    [] T.op = "sensor" -> In(LAMBDA x : [x EXCEPT !.sensor = <<T>>])
    [] T.op = "nosensor" -> In(LAMBDA x : [x EXCEPT !.sensor = <<>>])
    [] T.op = "cloud" -> In(AddCloud)
    [] T.op = "cmd" -> In(LAMBDA x : [x EXCEPT !.cmd = [vx |-> T.vx, vy |-> T.vy, deg |-> T.deg, w |-> T.w], !.pend = TRUE])
    [] T.op = "reset" -> In(LAMBDA x : [x EXCEPT !.s = AfterReset(@, T.t, g.c)])
    [] T.op = "disable" -> In(LAMBDA x : IF T.v THEN [x EXCEPT !.s = AfterDisable(@, T.t)] ELSE x)
    [] T.op = "outs" ->
         IF g.pend
         THEN /\ Len(T.tw) = 1 /\ WantOut(T.tw[1]) /\ \A i \in 1..Len(T.st) : StatusOk(T.st[i], g.s)
              /\ g' = [g EXCEPT !.pend = FALSE, !.s = AfterCmd(@, T.t, TRUE, g.c)]
         ELSE /\ AtTick \/ AtWd
              /\ (g.s.has => g.s.tick >= T.t) /\ (g.c.watchdog > 0 => g.s.wdNext >= T.t)
              /\ \A i \in 1..Len(T.tw) : Zero(T.tw[i])
              /\ (Len(T.tw) > 0) = (AtWd \/ TickStops(g.s, T.t, g.c))
              /\ Len(T.st) >= 1
              /\ \E n \in IF AtTick THEN AfterTick(g.s, T.t, IF TickStops(g.s, T.t, g.c) THEN <<0, 0>> ELSE Prediction, g.c) ELSE {Norm(g.s, T.t)} :
                    /\ StatusOk(Last(T.st), Fire(n))
                    /\ g' = [g EXCEPT !.s = Fire(n), !.accum = IF AtTick /\ TickStops(g.s, T.t, g.c) THEN <<>> ELSE @, !.accStamp = IF AtTick /\ TickStops(g.s, T.t, g.c) THEN 0 - 1 ELSE @]
    [] T.op = "end" -> Quiet(T.t) /\ T.how = "returned" /\ UNCHANGED g
    [] OTHER -> FALSE
TraceInit == l = 1 /\ g = 0 /\ now = 0 /\ st = 0 /\ out = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, g, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
