----------------------------- MODULE CompatTrace -----------------------------
EXTENDS Compat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur, seen
tv == <<l, cur, seen>>
T == Trace[l]
Ran(s) == {s[i] : i \in DOMAIN s}
Given == IF cur.named THEN cur.names ELSE <<>>
Names(k) == CASE k = "pub" -> Ran(T.pub) [] k = "sub" -> IF "sub" \in DOMAIN T THEN Ran(T.sub) ELSE {} [] OTHER -> Ran(T.srv)
\* a name hidden by one entry of this node may be an ordinary name of another
Fits(kinds) == \A e \in Ents(cur.node) : e.kind \in kinds =>
   /\ Offered(e, cur.ns, cur.level, Given) \in Names(e.kind)
   /\ (Hidden(e, cur.ns, cur.level, Given) # Offered(e, cur.ns, cur.level, Given) => Hidden(e, cur.ns, cur.level, Given) \notin Names(e.kind))
Step ==
  CASE T.op = "begin" -> cur' = [T EXCEPT !.level = IF T.set THEN T.level ELSE Default] /\ seen' = FALSE
    [] T.op = "names" -> Accepted(cur.level) /\ T.self = cur.ns \o "/" \o cur.node /\ (Fits({"pub", "sub", "srv"})) = TRUE /\ seen' = TRUE /\ UNCHANGED cur
    [] T.op = "end" -> /\ UNCHANGED <<cur, seen>>
                       /\ (IF Accepted(cur.level) THEN seen /\ T.how = "returned" /\ Fits({"pub", "srv"})
                           ELSE ~seen /\ T.how = "exception" /\ \A e \in Ents(cur.node) : OldName(e, cur.ns, Given) \notin Names(e.kind) /\ NewName(e, cur.ns) \notin Names(e.kind)) = TRUE
    [] OTHER -> FALSE
TraceInit == l = 1 /\ cur = [node |-> ""] /\ seen = FALSE /\ level = 0 /\ run = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
