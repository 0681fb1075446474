---------------------------- MODULE FiltersTrace ----------------------------
EXTENDS Filters, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, f       \* f: current filter/estimator record
T == Trace[l]
Near(a, b, t) == Abs(a - b) <= t
\* one turn is 62832 (1e-4 rad): input unwrapped to within half a turn of the previous output
Unwrap(v, o) == LET m == (v - o + 31416) \div 62832 IN {v - k * 62832 : k \in {k \in {m - 1, m, m + 1} : Abs(v - k * 62832 - o) <= 31416 + 2}}
FIn(x) ==
  /\ IF f.lpf THEN Near(LowPass(f.K, f.out, f.inp, x, T.out), 0, 2 * (f.K + 1) * (f.K + 1))
     ELSE Near(HighPass(f.K, f.out, f.inp, x, T.out), 0, 2 * (f.K + 1) * (f.K + 1))
  /\ (f.lpf => T.out >= Min(f.lo, x) - 2 /\ T.out <= Max(f.hi, x) + 2)
  /\ T.get = T.out
  /\ f' = [f EXCEPT !.out = T.out, !.inp = x, !.lo = Min(f.lo, x), !.hi = Max(f.hi, x)]
Fresh(K, lpf, ang, v) == [K |-> K, lpf |-> lpf, ang |-> ang, out |-> v, inp |-> v, lo |-> v, hi |-> v]
Step ==
  CASE T.op = "begin" -> f' = 0
    [] T.op = "filter" -> f' = Fresh(T.K, T.lpf, T.ang, T.v) /\ Near(T.get, T.v, 1)
    [] T.op = "fset" -> f' = Fresh(f.K, f.lpf, f.ang, T.v) /\ Near(T.get, T.v, 1)
    [] T.op = "fin" -> IF f.ang THEN \E x \in Unwrap(T.v, f.out) : FIn(x) ELSE FIn(T.v)
    \* Kalman: exact rational step from a set state (values x1000, deviations x1)
    [] T.op = "kstep" -> /\ Near(KalX(1000 * T.x, T.s, 1000 * T.xin, T.r, T.x2), 0, T.s * T.s + T.r * T.r)
                         /\ Near((T.s * T.s + T.r * T.r) * T.s2 - T.r * T.r * T.s * 1000, 0, T.s * T.s + T.r * T.r)
                         /\ UNCHANGED f
    \* Kalman history: state [x, s] (x1000), inf marked by inf = TRUE
    [] T.op = "kset" -> f' = [x |-> T.x, s |-> T.s, inf |-> T.inf]
    [] T.op = "kpred" -> /\ (f.inf => T.oinf) /\ (~f.inf => ~T.oinf /\ Near(T.os, f.s + T.sp, 1))
                         /\ Near(T.ox, f.x + T.xp, 1)
                         /\ f' = [x |-> T.ox, s |-> T.os, inf |-> T.oinf]
    [] T.op = "kmeas" ->
         /\ CASE T.rinf -> T.ox = f.x /\ T.os = f.s /\ T.oinf = f.inf
              [] ~T.rinf /\ f.inf -> T.ox = T.xin /\ T.os = T.r /\ ~T.oinf
              [] OTHER -> /\ ~T.oinf /\ T.os <= f.s + 1 /\ T.os >= 0
                          /\ T.ox >= Min(f.x, T.xin) - 1 /\ T.ox <= Max(f.x, T.xin) + 1
                          /\ (T.r = 0 => Near(T.ox, T.xin, 1) /\ T.os = 0)
                          /\ (T.r > f.s => Abs(T.ox - f.x) <= Abs(T.ox - T.xin) + 2)
                          /\ (T.r < f.s => Abs(T.ox - f.x) >= Abs(T.ox - T.xin) - 2)
         /\ f' = [x |-> T.ox, s |-> T.os, inf |-> T.oinf]
    [] T.op = "mean0" -> T.m = 0 /\ f' = [sum |-> 0, n |-> 0]
    [] T.op = "mean" -> /\ Near(T.m * (f.n + 1), (f.sum + T.v) * 100, (f.n + 1) \div 2 + 1)
                        /\ Near(T.md * (f.n + 1), (f.sum + T.v) * 100, (f.n + 1) \div 2 + 1)
                        /\ f' = [sum |-> f.sum + T.v, n |-> f.n + 1]
    [] OTHER -> FALSE
TraceInit == l = 1 /\ f = 0 /\ out = 0 /\ inp = 0 /\ lo = 0 /\ hi = 0 /\ n = 0 /\ hp = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, f, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
