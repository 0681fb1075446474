---------------------------- MODULE PatrolTrace ----------------------------
EXTENDS Patrol, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c
T == Trace[l]
Step ==
  CASE T.op = "begin" -> p' = [path |-> <<>>, pos |-> 0, outcome |-> "none", npaths |-> 0, stale |-> FALSE, sent |-> <<>>, open |-> 0, latest |-> FALSE] /\ c' = [tolerant |-> T.tolerant, tol |-> T.tol, may |-> FALSE, id |-> ""]
    [] T.op = "path" -> NewPath(T.ids) /\ c' = [c EXCEPT !.may = p.npaths > 0]
    \* only a new path cancels goals
    [] T.op = "cancel" -> c.may /\ T.all /\ Cancel /\ c' = [c EXCEPT !.may = FALSE]
    [] T.op = "goal" -> Send /\ T.id = p.path[p.pos + 1] /\ T.stampok /\ (c.tolerant => T.tol = c.tol) /\ c' = [c EXCEPT !.may = FALSE, !.id = T.goal]
    \* results of goals other than the latest one have no effect
    [] T.op = "result" -> (IF T.goal = c.id /\ p.latest /\ p.open # 0 THEN Outcome(T.o) ELSE UNCHANGED p) /\ UNCHANGED c
    [] T.op = "dup" -> UNCHANGED <<p, c>>
    \* nothing is left to do after a while without input
    [] T.op = "idle" -> ~MaySend /\ ~p.stale /\ UNCHANGED <<p, c>>
    [] T.op = "end" -> T.how = "returned" /\ UNCHANGED <<p, c>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ c = 0 /\ Init
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, c, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
