--------------------------- MODULE StartPoseTrace ---------------------------
EXTENDS StartPose, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, held
T == Trace[l]
Set(s) == {s[i] : i \in DOMAIN s}
Same(o) == /\ T.ok = o.ok /\ Len(T.pres) = Len(o.pres)
           /\ \A i \in DOMAIN o.pres : T.pres[i][1] = o.pres[i][1] /\ T.pres[i][2] = o.pres[i][2] /\ T.pres[i][3] = o.pres[i][3] % 16
           /\ (o.ok => T.cell = o.cell)
           /\ Abs(T.len - o.len) <= 4 + Len(o.pres) + (o.len \div 500)
Step ==
  CASE T.op = "conf" -> k' = [k EXCEPT !.pred = T.pred, !.sb = T.sb, !.stop = T.stop, !.lin = T.lin, !.ang = T.ang] /\ T.pres = <<>> /\ T.len = 0
    [] T.op = "map" -> k' = [k EXCEPT !.lethal = Set(T.lethal), !.res = T.res, !.a = T.a, !.ox = T.ox, !.oy = T.oy]
    [] T.op = "pred" -> T.exact /\ (\E o \in Predict(T.in, k, <<T.x, T.y, T.h>>) : Same(o)) = TRUE /\ UNCHANGED k
    [] T.op = "clear" -> T.pres = <<>> /\ T.len = 0 /\ UNCHANGED k
    [] OTHER -> FALSE
TraceInit == l = 1 /\ k = [pred |-> 0, sb |-> 0, stop |-> 0, lin |-> 1, ang |-> 1, res |-> 2, a |-> 4, ox |-> 0, oy |-> 0, lethal |-> {}] /\ held = 0 /\ path = <<>> /\ done = 0 /\ robot = 0 /\ goalSeen = 0 /\ cur = <<>> /\ rob = <<>> /\ obst = {} /\ last = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED <<held, vars, mvars>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, k, held, vars, mvars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
