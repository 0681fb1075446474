------------------------- MODULE JoyInterruptTrace -------------------------
EXTENDS JoyInterrupt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Step ==
  CASE T.op = "begin" -> Start([timeout |-> T.timeout, button |-> T.button, high |-> T.high, ax |-> T.ax, vel |-> T.vel, ratio |-> T.ratio])
    [] T.op = "joy" -> Joy(T.t, T.b, T.a, T.out) /\ T.st = <<>>
    [] T.op = "in" -> In(T.t, T.v, T.out, T.st)
    [] T.op = "end" -> T.how = "returned" /\ T.out = <<>> /\ T.st = <<>> /\ UNCHANGED vars
    [] OTHER -> FALSE
TraceInit == cfg = 0 /\ held = FALSE /\ last = 0 /\ cmd = 0 /\ now = 0 /\ ev = 0 /\ hist = 0 /\ n = 0 /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED <<now, ev, hist, n>>
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
