---------------------------- MODULE JoyMuxTrace ----------------------------
EXTENDS JoyMux, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Step ==
  CASE T.op = "begin" -> Start(T.t, [timeout |-> T.timeout, latency |-> 100001, button |-> T.button])
    [] T.op = "joy" -> Joy(T.t, T.b) /\ T.fwd = <<>>
    [] T.op = "in" -> In(T.t, T.src, T.id, T.fwd)
    [] T.op = "end" -> T.how = "returned" /\ T.fwd = <<>> /\ UNCHANGED vars
    [] OTHER -> FALSE
TraceInit == cfg = 0 /\ sel = 0 /\ last = 0 /\ now = 0 /\ got = 0 /\ joys = 0 /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED <<now, got, joys>>
TraceSpec == TraceInit /\ [][TraceNext]_<<cfg, sel, last, now, got, joys, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
