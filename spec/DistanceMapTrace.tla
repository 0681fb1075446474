-------------------------- MODULE DistanceMapTrace --------------------------
EXTENDS DistanceMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, infos
T == Trace[l]
Holds(p) == TRUE = p
SetOf(q) == {q[i] : i \in 1..Len(q)}
Param(e) == [ec |-> e.ec, res |-> e.res, wc |-> e.wc, wh |-> e.wh]
\* a dump: costs, remembered costs and distances of every cell after an operation
DumpOK(e) ==
  LET W == cfg.w
      G(x, y) == e.g[y * W + x + 1]
      C(x, y) == e.cm[y * W + x + 1]
      R(x, y) == e.bbf[y * W + x + 1]
  IN \/ ~InBox(W, cfg.h, e.s) \/ ~InBox(W, cfg.h, e.e)     \* nothing is promised for a start or goal outside the map
     \/ TableRight(Param(cfg), W, cfg.h, infos, G, C, R, e.e, e.s, (cfg.ec * cfg.over), 10)
Step ==
  CASE T.op = "begin" -> cfg' = T /\ infos' = {Info(Param(T), d) : d \in JumpsOf(4)}
    [] T.op = "table" -> Holds(DumpOK(T)) /\ UNCHANGED <<cfg, infos>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ cfg = 0 /\ infos = {} /\ cmap = 0 /\ goal = 0 /\ start = 0 /\ g = 0 /\ edges = 0 /\ ops = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg, infos, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
