------------------------------- MODULE Motion -------------------------------
(* Geometry of the motions of the position-and-heading planner (C06, C07).    *)
(* Fixed point: lengths in cells * K, sines * K. Headings are 0..N-1.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SinTable
K == 100000
ASSUME Len(SinTab) = 4097 /\ SinTab[1] = 0 /\ SinTab[1025] = K /\ SinTab[2049] = 0 /\ SinTab[3073] = -K
ASSUME \A i \in {0, 100, 511, 1024, 1500, 2048, 2600, 3333, 3900} :
         LET s == SinTab[i + 1] \div 10  c == SinTab[((i + 1024) % 4096) + 1] \div 10
         IN s * s + c * c \in (100000000 - 60000)..(100000000 + 60000)
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* sine of num/den turns
Sin(num, den) ==
  LET m == ((num % den) + den) % den
      i == (4096 * m) \div den
      f == (4096 * m) % den
  IN SinTab[i + 1] + (IF f = 0 THEN 0 ELSE ((SinTab[i + 2] - SinTab[i + 1]) * f) \div den)
Cos(num, den) == Sin(4 * num + den, 4 * den)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
\* a * b / K for |b| <= K
MulP(a, b) == ((a \div 10000) * b) \div 10 + ((a % 10000) * b) \div K
Mul(a, b) == Sgn(a) * MulP(Abs(a), b)
\* a * K / b for |a| up to 100 cells
DivP(a, b) == (a \div b) * K + (((a % b) * 10000) \div b) * 10 + (((((a % b) * 10000) % b) * 10) \div b)
Div(a, b) == Sgn(a) * Sgn(b) * DivP(Abs(a), Abs(b))
RECURSIVE IS(_, _, _)
IS(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN IS(n, m, hi) ELSE IS(n, lo, m)
ISqrt(n) == IS(n, 0, 46000)
\* heading difference in (-N/2, N/2]
DK(N, s, e) == LET k == (((e - s) % N) + N) % N IN IF 2 * k > N THEN k - N ELSE k
\* displacement d = <<dx, dy, end heading>> seen from a robot with heading s
Rel0(N, s, d) == d[1] * Cos(s, N) + d[2] * Sin(s, N)
Rel1(N, s, d) == d[2] * Cos(s, N) - d[1] * Sin(s, N)
SqLen(d) == d[1] * d[1] + d[2] * d[2]
Tol == 300
\* a motion: everything the interpolation needs
Mot(N, s, d) ==
  LET k == DK(N, s, d[3])
      m0 == Rel0(N, s, d)
      m1 == Rel1(N, s, d)
      sv == Sin(k, N)
      cv == Cos(k, N)
      straight == Abs(sv) < 10000
      r2 == IF straight THEN 0 ELSE Div(m0, sv)
      r1 == IF straight THEN 0 ELSE m1 + Div(Mul(m0, cv), sv)
  IN [N |-> N, s |-> s, d |-> d, k |-> k, m0 |-> m0, m1 |-> m1, sv |-> sv, straight |-> straight, r1 |-> r1, r2 |-> r2,
      cx |-> d[1] * K - Mul(r2, Sin(d[3], N)), cy |-> d[2] * K + Mul(r2, Cos(d[3], N)),
      sx |-> -Mul(r1, Sin(s, N)), sy |-> Mul(r1, Cos(s, N))]
\* number of interpolation steps at resolution er10/10 cells: nearest integer to the length over it
Steps(d, er10) == CHOOSE t \in 0..1000 : ((2 * t - 1) * er10 <= 0 \/ ((2 * t - 1) * er10) * ((2 * t - 1) * er10) <= 400 * SqLen(d))
                                        /\ 400 * SqLen(d) < ((2 * t + 1) * er10) * ((2 * t + 1) * er10)
\* pose <<x, y, heading>> (times K) after i of t steps
Pose(m, i, t) ==
  IF m.straight THEN <<(m.d[1] * K * i) \div t, (m.d[2] * K * i) \div t, m.s * K>>
  ELSE LET r == (m.r1 * (t - i) + m.r2 * i) \div t
           num == m.s * t + i * m.k
           x == ((m.sx * (t - i) + m.cx * i) \div t) + Mul(r, Sin(num, m.N * t))
           y == ((m.sy * (t - i) + m.cy * i) \div t) - Mul(r, Cos(num, m.N * t))
       IN <<x, y, m.s * K + (m.k * K * i) \div t>>
\* cells a coordinate may round to
RC(x, tol) == {(x + K \div 2 - tol) \div K, (x + K \div 2 + tol) \div K}
CellsOf(m, p, tol) == {<<a, b, (h + m.N) % m.N>> : a \in RC(p[1], tol), b \in RC(p[2], tol), h \in RC(p[3], tol)}
Goal(m) == <<m.d[1], m.d[2], m.d[3] % m.N>>
Poses(m, t) == [i \in 0..(t - 1) |-> Pose(m, i, t)]
Possible(m, ps) == UNION {CellsOf(m, ps[i], Tol) : i \in DOMAIN ps} \ {Goal(m)}
Certain(m, ps) == UNION {LET c == CellsOf(m, ps[i], Tol) IN IF Cardinality(c) = 1 THEN c ELSE {} : i \in DOMAIN ps} \ {Goal(m)}
RECURSIVE LenSum(_, _, _)
\* length of the polyline through the poses and the goal, in K/10 units
Seg(p, q) == ISqrt(((p[1] - q[1]) \div 10) * ((p[1] - q[1]) \div 10) + ((p[2] - q[2]) \div 10) * ((p[2] - q[2]) \div 10))
LenSum(m, ps, i) == IF i + 1 \notin DOMAIN ps THEN Seg(ps[i], <<m.d[1] * K, m.d[2] * K, 0>>) ELSE Seg(ps[i], ps[i + 1]) + LenSum(m, ps, i + 1)
\* Motions the robot can make. tol > 0: certainly can; tol < 0: possibly can.
\* rmin: minimum radius (cells * K), asp: least forward/sideways ratio of a straight motion (* 100)
Feasible(m, rmin, asp, tol) ==
  IF m.d[1] = 0 /\ m.d[2] = 0 THEN m.k # 0
  ELSE /\ Abs(m.m0) >= K \div 2 + tol \/ Abs(m.m1) < K \div 2 - tol
       /\ 4 * Abs(m.k) < m.N
       /\ IF m.k = 0
          THEN /\ Abs(m.m0) >= K \div 2 + tol
               /\ (Abs(m.m0) \div 100) * 100 >= asp * (Abs(m.m1) \div 100) + (IF tol > 0 THEN asp + 100 ELSE -asp - 100)
          ELSE /\ Abs(m.m1) >= K \div 2 + tol
               /\ Sgn(m.m0) * Sgn(m.m1) * Sgn(m.k) > 0
               /\ SqLen(m.d) >= 9
               /\ Abs(m.r1 - m.r2) < (3 * K) \div 2 - tol
               /\ Abs((m.r1 + m.r2) \div 2) >= rmin + tol
-----------------------------------------------------------------------------
(* bounded model: every motion within a range, as a state                     *)
CONSTANTS MN, MRange, MEr
VARIABLE mot
vars == <<mot>>
Init == mot \in {[N |-> 0, s |-> h] : h \in 0..(MN - 1)}
Next == /\ mot.N = 0
        /\ \E a \in (-MRange)..MRange, b \in (-MRange)..MRange, e \in 0..(MN - 1) :
             /\ a * a + b * b <= MRange * MRange /\ (a # 0 \/ b # 0)
             /\ mot' = Mot(MN, mot.s, <<a, b, e>>)
Spec == Init /\ [][Next]_vars
Can == mot.N > 0 /\ Feasible(mot, K, 0, -Tol)
PS == Poses(mot, Steps(mot.d, MEr))
Adj(p, q) == Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
\* a feasible motion starts in the robot's cell, moves through neighbouring cells, ends next to its goal
StartsHere == Can => <<0, 0, mot.s>> \in Possible(mot, PS)
Connected == Can => LET n == Steps(mot.d, MEr) IN
               /\ \A i \in 0..(n - 2) : Abs(PS[i][1] - PS[i + 1][1]) < K + Tol /\ Abs(PS[i][2] - PS[i + 1][2]) < K + Tol
               /\ Abs(PS[n - 1][1] - mot.d[1] * K) < K + Tol /\ Abs(PS[n - 1][2] - mot.d[2] * K) < K + Tol
\* and never leaves the box of its range, so nothing farther from the edge than the range looks outside the map
InReach == Can => \A c \in Certain(mot, PS) : Abs(c[1]) <= MRange /\ Abs(c[2]) <= MRange
\* heading only turns from the start heading towards the goal heading
HeadingOK == Can => \A i \in DOMAIN PS : Abs(PS[i][3] - mot.s * K) <= Abs(mot.k) * K
=============================================================================
