-------------------------- MODULE LocalWindowTrace --------------------------
EXTENDS LocalWindow, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
T == Trace[l]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Avail == Len(g.large) > 0 /\ Len(g.robot) > 0
\* timer ticks have an effect only when map and pose are available
Norm(t) == IF Avail \/ g.tick > t THEN g.tick ELSE t + g.c.period - ((t - g.t0) % g.c.period)
Quiet(t) == ~Avail \/ g.tick > t
RayTab == [c \in Cells(g.c.width) |-> Ray(g.c.width, c)]
MapOk(o) ==
  LET large == g.large[1]  n == g.c.width  r == large.res
      gx == (o.ox - large.ox) \div r  gy == (o.oy - large.oy) \div r
      At(c) == o.data[c[2] * n + c[1] + 1]
      B(c) == Base(large, n, gx, gy, g.c.round, g.c.walls, c) IN
  /\ o.ok /\ o.w = n /\ o.h = n /\ o.res = r /\ Len(o.data) = n * n
  \* aligned with the cells of the large map, centred at the robot within one and a half cells
  /\ (o.ox - large.ox) % r = 0 /\ (o.oy - large.oy) % r = 0
  /\ Abs(2 * (g.robot[1] - o.ox) - n * r) <= 3 * r /\ Abs(2 * (g.robot[2] - o.oy) - n * r) <= 3 * r
  /\ \A c \in Cells(n) :
       IF ~g.c.occlusion THEN At(c) = B(c)
       ELSE /\ At(c) = B(c) \/ (At(c) = Unknown /\ \E k \in g.rays[c] : B(k) = Lethal)
            /\ (\E k \in g.rays[c] : At(k) = Lethal) => At(c) = Unknown
Step ==
  CASE T.op = "begin" -> g' = [c |-> T, t0 |-> T.t, tick |-> T.t + T.period, large |-> <<>>, robot |-> <<>>, rays |-> IF T.occlusion THEN [c \in Cells(T.width) |-> Ray(T.width, c)] ELSE 0]
    [] T.op = "large" -> Quiet(T.t) /\ g' = [g EXCEPT !.tick = Norm(T.t), !.large = <<T>>]
    [] T.op = "robot" -> Quiet(T.t) /\ g' = [g EXCEPT !.tick = Norm(T.t), !.robot = T.p]
    [] T.op = "map" -> Avail /\ T.t = g.tick /\ (MapOk(T)) = TRUE /\ g' = [g EXCEPT !.tick = @ + g.c.period]
    [] T.op = "end" -> Quiet(T.t) /\ T.how = "returned" /\ UNCHANGED g
    [] OTHER -> FALSE
TraceInit == l = 1 /\ g = 0 /\ w = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step) /\ UNCHANGED w
TraceSpec == TraceInit /\ [][TraceNext]_<<l, g, w>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
