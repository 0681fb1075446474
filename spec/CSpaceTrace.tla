---------------------------- MODULE CSpaceTrace ----------------------------
EXTENDS CSpace, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, maps
T == Trace[l]
SetOf(q) == {q[i] : i \in 1..Len(q)}
At(c) == maps[(c[2] * cfg.w + c[1]) * cfg.n + c[3] + 1]
Reach == cfg.range + 1
Inf == 200000000
CostOK(cur, next, c) ==
  /\ c >= 0 => ~MustRefuse(cfg.n, cfg.w, cfg.h, At, cur, next, cfg.er10)
  /\ c = -1 => MayRefuse(cfg.n, cfg.w, cfg.h, At, cur, next, cfg.er10, Reach)
  /\ c >= 0 => c + 3 + (c \div 5000) >= EuclidLow(cfg.n, cur, next, cfg.c0, cfg.c2)
  /\ c >= -1
OffTo(p) == <<p[1], p[2], Mod(cfg.n, T.s[3] + p[3])>>
\* near a start only motions the robot can make; farther away also sideways shifts without turning
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
NearStart(p, starts) == \E s \in SetOf(starts) : Dist2(p, s) < cfg.lr * cfg.lr
MotionOK(s, p, near) ==
  /\ p[1] * p[1] + p[2] * p[2] <= cfg.range * cfg.range
  /\ IF near THEN Feasible(Mot(cfg.n, s, <<p[1], p[2], Mod(cfg.n, s + p[3])>>), cfg.rmin, cfg.asp, -Tol)
     ELSE p[3] = 0 \/ Feasible(Mot(cfg.n, s, <<p[1], p[2], Mod(cfg.n, s + p[3])>>), cfg.rmin, cfg.asp, -Tol)
GridsOK(e) == LET near == NearStart(e.s, e.starts) IN
  /\ Len(e.list) > 0 /\ \A p \in SetOf(e.list) : MotionOK(e.s[3], p, near)
\* estimate: cached distance plus the share of the remaining turn
EstimOK(e) == IF e.cache >= Inf THEN e.c >= Inf
              ELSE LET x == e.cache + cfg.c2 * Abs(DK(cfg.n, e.cur[3], e.goal[3])) IN Abs(e.c - x) <= 5 + e.c \div 5000
PathOK(e) ==
  LET n == Len(e.path) IN
  /\ n >= 1 /\ e.path[1] \in SetOf(e.starts) /\ e.path[n] = e.goal
  /\ \A i \in 1..n : InMap(cfg.w, cfg.h, e.path[i]) /\ e.path[i][3] \in 0..(cfg.n - 1) /\ (n > 1 => ~Lethal(At(e.path[i])))
  /\ \A i \in 1..(n - 1) : LET p == e.path[i]  q == e.path[i + 1] IN
       /\ MotionOK(p[3], <<q[1] - p[1], q[2] - p[2], Mod(cfg.n, q[3] - p[3])>>, NearStart(p, e.starts))
       /\ ~MustRefuse(cfg.n, cfg.w, cfg.h, At, p, q, cfg.er10)
\* the interpolated path (1/1000 cells and headings): from the start to the goal, no gap, every pose on a cell that is not lethal
FreePose(p) == \E c \in CellsOf([N |-> cfg.n], <<p[1] * 100, p[2] * 100, p[3] * 100>>, 2 * Tol) : InMap(cfg.w, cfg.h, c) /\ ~Lethal(At(<<c[1], c[2], Mod(cfg.n, c[3])>>))
InterOK(e) ==
  LET n == Len(e.inter)
      first == e.path[1]  last == e.path[Len(e.path)]
      gap == 100 * cfg.ir10 + 200 * cfg.er10 + 600
  IN /\ n >= Len(e.path)
     /\ Abs(e.inter[1][1] - 1000 * first[1]) < 600 /\ Abs(e.inter[1][2] - 1000 * first[2]) < 600
     /\ e.inter[n] = <<1000 * last[1], 1000 * last[2], 1000 * last[3]>>
     /\ \A i \in 1..n : FreePose(<<e.inter[i][1], e.inter[i][2], e.inter[i][3] % (1000 * cfg.n)>>)
     /\ \A i \in 1..(n - 1) : Abs(e.inter[i][1] - e.inter[i + 1][1]) <= gap /\ Abs(e.inter[i][2] - e.inter[i + 1][2]) <= gap
\* evaluated as a value (not expanded into branches of the next-state relation)
Holds(p) == TRUE = p
Step ==
  CASE T.op = "begin" -> cfg' = T /\ maps' = T.cm
    [] T.op = "params" -> cfg' = [cfg EXCEPT !.c0 = T.c0, !.c2 = T.c2, !.rmin = T.rmin, !.lr = T.lr] /\ UNCHANGED maps
    [] T.op = "cost" -> Holds(CostOK(T.cur, T.next, T.c)) /\ UNCHANGED <<cfg, maps>>
    [] T.op = "grids" -> Holds(GridsOK(T)) /\ UNCHANGED <<cfg, maps>>
    [] T.op = "estim" -> Holds(EstimOK(T)) /\ UNCHANGED <<cfg, maps>>
    [] T.op = "search" -> Holds((T.found => PathOK(T) /\ InterOK(T))) /\ UNCHANGED <<cfg, maps>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ cfg = 0 /\ maps = 0 /\ mot = 0 /\ pose = 0 /\ wall = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg, maps, cvars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
