-------------------------- MODULE SpeedLimitTrace --------------------------
EXTENDS SpeedLimit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Near(a, b, t) == Abs(a - b) <= t
Stay == UNCHANGED cur
PI5 == 314159      \* pi in 1e-5 rad
TWOPI5(n) == (n * 6283185) \div 10
Step ==
  CASE T.op = "begin" -> Reset
    [] T.op = "set" -> Set(T.v, T.vmax, T.step) /\ T.ret = cur' /\ T.get = cur'
    [] T.op = "inc" -> Increment(T.v, T.vmax, T.step) /\ T.ret = cur' /\ T.get = cur'
    [] T.op = "clear" -> Reset /\ T.get = 0
    [] T.op = "nonfinite" -> Reset /\ T.ret = 0 /\ T.get = 0
    [] T.op = "clip" -> T.ret = Clip(T.v, T.max) /\ Stay
    \* 1e-5 rad; within half a turn and a whole number of turns away
    [] T.op = "angle" -> /\ Near(T.ret, 0, PI5 + 2)
                         /\ LET n == (T.a - T.ret + 314159) \div 628319 IN
                              \E k \in {n - 1, n, n + 1} : Near(T.a - T.ret, TWOPI5(k), 12)
                         /\ (Abs(T.a) < PI5 - 2 => T.ret = T.a)
                         /\ Stay
    \* speed (1/100) from which the given acceleration stops within the angle (both 1/16)
    [] T.op = "topt" -> /\ (T.a > 0 => T.ret <= 0) /\ (T.a < 0 => T.ret >= 0)
                        /\ LET sq == (2 * Abs(T.a * T.acc) * 10000) \div 256 IN Near(T.ret * T.ret, sq, 3 * Abs(T.ret) + 3)
                        /\ Stay
    [] OTHER -> FALSE
TraceInit == cur = 0 /\ l = 1 /\ last = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED last
TraceSpec == TraceInit /\ [][TraceNext]_<<cur, l, last>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
