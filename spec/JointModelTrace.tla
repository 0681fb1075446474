-------------------------- MODULE JointModelTrace --------------------------
EXTENDS JointModel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pr
T == Trace[l]
P2(s) == <<s[1], s[2]>>
Near(x, S) == \E y \in S : (y = -1 /\ x < 0) \/ (y >= 0 /\ x >= 0 /\ Abs(x - y) <= 2 + y \div 200000)
CS(a, b) == CostSet(pr.g, a, b, pr.R, pr.w, pr.wc)
Load(t) == [R |-> t.R, w |-> P2(t.w), wc |-> t.wc, range |-> t.range,
            g |-> [c \in (0..(t.R-1)) \X (0..(t.R-1)) |-> t.g[c[1] * t.R + c[2] + 1]]]
Offs(r) == (-r..r) \X (-r..r)
Wrap2(c) == <<c[1] % (2 * pr.R), c[2] % (2 * pr.R)>>
\* cells reachable by permitted transitions: surely / possibly (ties)
RECURSIVE Reach(_, _, _)
Reach(S, fr, sure) ==
  IF fr = {} THEN S
  ELSE LET nx == {n \in UNION {{Wrap2(<<c[1] + o[1], c[2] + o[2]>>) : o \in Offs(pr.range)} : c \in fr} \ S :
                    \E c \in fr : LET d == <<n[1] - c[1], n[2] - c[2]>> IN
                      /\ \E o \in Offs(pr.range) : Wrap2(<<c[1] + o[1], c[2] + o[2]>>) = n
                      /\ IF sure THEN -1 \notin CS(c, n) ELSE \E v \in CS(c, n) : v > 0 }
       IN Reach(S \cup nx, nx, sure)
ChainOK(p) == \A k \in 1..(Len(p) - 1) :
   /\ \E v \in CS(P2(p[k]), P2(p[k+1])) : v >= 0
   /\ \E o \in Offs(pr.range) : Wrap2(<<p[k][1] + o[1], p[k][2] + o[2]>>) = P2(p[k+1])
Step ==
  CASE T.op = "begin" -> pr' = Load(T)
    [] T.op = "list" -> /\ {P2(T.v[k]) : k \in 1..Len(T.v)} \cup {<<0, 0>>} = Offs(pr.range) /\ UNCHANGED pr
    [] T.op = "cost" -> Near(T.c, CS(P2(T.a), P2(T.b))) /\ UNCHANGED pr
    [] T.op = "est" -> Near(T.c, {Estim(P2(T.a), P2(T.b), pr.w)}) /\ UNCHANGED pr
    [] T.op = "len" -> Near(T.c, {100 * Length(pr.w, P2(T.d))}) /\ UNCHANGED pr
    [] T.op = "search" ->
         LET s == P2(T.s)  g == P2(T.e) IN
         /\ IF T.ok THEN /\ Len(T.path) >= 2 /\ P2(T.path[1]) = s /\ P2(T.path[Len(T.path)]) = g /\ ChainOK(T.path)
            ELSE s = g \/ g \notin Reach({s}, {s}, TRUE)
         /\ UNCHANGED pr
    [] OTHER -> FALSE
TraceInit == l = 1 /\ pr = 0 /\ grid = 0 /\ pos = 0 /\ left = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, pr, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
