---------------------------- MODULE MotionTrace ----------------------------
EXTENDS Motion, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg
T == Trace[l]
Near(a, b, t) == Abs(a - b) <= t
SetOf(q) == {q[i] : i \in 1..Len(q)}
PageOK(m, e) ==
  LET t == Steps(m.d, cfg.er10)
      ps == Poses(m, t)
      rec == SetOf(e.cells)
  IN /\ Cardinality(rec) = Len(e.cells)
     /\ rec \subseteq Possible(m, ps)
     /\ Certain(m, ps) \subseteq rec
     /\ \A c \in rec : \* a motion to a cell inside the map from a cell no nearer the edge than the reach stays inside
          /\ e.prim => /\ c[1] \in Min(0, Min(m.d[1], -cfg.reach[1]))..Max(0, Max(m.d[1], cfg.reach[1]))
                       /\ c[2] \in Min(0, Min(m.d[2], -cfg.reach[2]))..Max(0, Max(m.d[2], cfg.reach[2]))
     /\ IF m.straight THEN Near(e.dist * e.dist, SqLen(m.d) * 1000000, 3 * e.dist + 3)
        ELSE e.full => Near(e.dist, LenSum(m, ps, 0) \div 10, 10 + t \div 8)
     /\ e.full =>
          LET st == Max(1, (2 * cfg.ir10 + cfg.er10) \div (2 * cfg.er10)) IN
            /\ Len(e.im) = (t + st - 1) \div st
            /\ \A j \in 1..Len(e.im) : LET p == ps[(j - 1) * st] IN
                 /\ Near(e.im[j][1], p[1] \div 100, 5) /\ Near(e.im[j][2], p[2] \div 100, 5)
                 /\ Near((e.im[j][3] - p[3] \div 100 + 5) % (1000 * m.N), 5, 5)
RotOK(m, e) ==
  /\ Near(e.m[1], m.m0 \div 10, 30) /\ Near(e.m[2], m.m1 \div 10, 30)
  \* relative heading in 1e-4 of a heading step, modulo a turn
  /\ Near((e.m[3] - m.k * 10000 + 20) % (10000 * m.N), 20, 20)
  /\ (Abs(m.sv) >= 10000) => /\ Near(e.r1, m.r1 \div 10, 30 + Abs(m.r1) \div 10000)
                             /\ Near(e.r2, m.r2 \div 10, 30 + Abs(m.r2) \div 10000)
\* the motions offered for heading s: all certainly feasible ones, no impossible ones
PrimsOK(e) ==
  LET got == SetOf(e.list)
      box == {<<a, b, k>> : a \in (-cfg.range)..cfg.range, b \in (-cfg.range)..cfg.range, k \in 0..(cfg.n - 1)}
      all == {p \in box : p[1] * p[1] + p[2] * p[2] <= cfg.range * cfg.range}
      M(p) == Mot(cfg.n, e.s, <<p[1], p[2], (e.s + p[3]) % cfg.n>>)
  IN /\ Cardinality(got) = Len(e.list) /\ got \subseteq all
     /\ \A p \in all : LET m == M(p) IN
          /\ p \in got => Feasible(m, cfg.rmin, cfg.asp, -Tol)
          /\ Feasible(m, cfg.rmin, cfg.asp, Tol) => p \in got
\* evaluated as a value (not expanded into branches of the next-state relation)
Holds(p) == TRUE = p
Step ==
  CASE T.op = "begin" -> cfg' = T
    [] T.op = "page" -> Holds(T.found /\ PageOK(Mot(cfg.n, T.s, T.d), T)) /\ UNCHANGED cfg
    [] T.op = "rot" -> Holds(RotOK(Mot(cfg.n, T.s, T.d), T)) /\ UNCHANGED cfg
    [] T.op = "prims" -> Holds(PrimsOK(T)) /\ UNCHANGED cfg
    \* in-place turns and out-of-range displacements have no page
    [] T.op = "nopage" -> ~T.found /\ UNCHANGED cfg
    [] OTHER -> FALSE
TraceInit == l = 1 /\ cfg = 0 /\ mot = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED mot
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg, mot>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
