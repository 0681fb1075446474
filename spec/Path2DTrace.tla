----------------------------- MODULE Path2DTrace -----------------------------
EXTENDS Path2D, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p
T == Trace[l]
Near(a, b, t) == Abs(a - b) <= t
Tol(x) == 4 + Abs(x) \div 500
RECURSIVE GoalChain(_, _, _, _, _, _, _)
\* r is a possible result of repeating the search from each local goal found
GoalChain(q, b, e, sb, ip, eps, r) ==
  LET S == LocalGoal(q, b, e, sb, ip, eps) IN
  IF r = <<>> THEN e \in S
  ELSE Head(r) \in S /\ Head(r) < e /\ Head(r) > b /\ GoalChain(q, Head(r), e, sb, ip, eps, Tail(r))
RECURSIVE SumCurv(_, _, _, _, _, _)
\* curvature x 10^4 per unit of three points
Curv3(a, b, c) ==
  LET cr == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
      s == IF cr < 0 THEN -1 ELSE 1
      A == ISqrt(Sq(a, b) * 10000)  B == ISqrt(Sq(b, c) * 10000)  C == ISqrt(Sq(a, c) * 10000) IN
  s * (((((((2 * Abs(cr) * 100000) \div A) * 1000) \div B) * 100) \div C))
SumCurv(q, i, e, t, rg, acc) ==
  IF i >= e THEN acc
  ELSE LET c == Curv3(q[i - 1], q[i], q[i + 1])
           nx == [s |-> acc.s + c, n |-> acc.n + 1] IN
       IF Sq(q[i + 1], t) > rg * rg THEN nx ELSE SumCurv(q, i + 1, e, t, rg, nx)
Step ==
  CASE T.op = "begin" -> p' = <<>>
    [] T.op = "path" -> /\ T.same
                        /\ LET w == IF T.how = "path" THEN T.in ELSE Merge(T.in, <<>>, T.eps, <<>>) IN
                           /\ Len(T.out) = Len(w)
                           /\ \A i \in 1..Len(w) : /\ T.out[i][1] = w[i][1] /\ T.out[i][2] = w[i][2] /\ T.out[i][3] = w[i][3] % 16
                                                   /\ (IF T.how = "msg" THEN T.out[i][4] = -99 ELSE T.out[i][4] = w[i][4])
                           /\ (w # <<>> => Near(T.len, LenTo(w, 0, Len(w) - 1), Tol(T.len) + Len(w)))
                        /\ p' = T.out
    [] T.op = "lg" -> T.r \in LocalGoal(p, T.b, T.e, T.sb, T.ip, T.eps) /\ UNCHANGED p
    [] T.op = "goals" -> (GoalChain(p, T.b, T.e, T.sb, T.ip, T.eps, T.r)) = TRUE /\ UNCHANGED p
    [] T.op = "near" ->
         LET t == <<T.x, T.y>> IN
         /\ T.r2 = T.r
         /\ IF T.b = T.e THEN T.r = T.e /\ (IF T.e = Len(p) THEN T.d = -1 ELSE Near(T.d, D100(p[T.e + 1], t), Tol(T.d)))
            ELSE LET sure == InRange(p, T.b, T.e, T.range, -3 * Len(p))  poss == InRange(p, T.b, T.e, T.range, 3 * Len(p)) IN
                 /\ T.r \in poss \cup {T.b}
                 /\ (T.b + 1 \in sure => T.r # T.b)
                 /\ Near(T.d, IF T.r = T.b THEN D100(p[T.b + 1], t) ELSE Abs(SegDist(p[T.r], p[T.r + 1], t)), Tol(T.d))
                 /\ T.d <= Best(p, T.b, sure, t) + Tol(T.d)
         /\ UNCHANGED p
    [] T.op = "rem" -> /\ LET w == Remain(p, T.n, T.e, T.b, <<T.x, T.y>>) IN Near(T.d, w, Tol(w) + Len(p))
                       /\ UNCHANGED p
    [] T.op = "eta" ->
         /\ IF T.b = T.e THEN T.r = <<>>
            ELSE /\ Len(T.r) = T.e - T.b
                 /\ Near(T.r[1], T.init, 1)
                 /\ \A i \in 2..Len(T.r) :
                      LET a == p[T.b + i - 1]  c == p[T.b + i] IN
                      Near(T.r[i] - T.r[i - 1], IF Sq(a, c) > 0 THEN (D100(a, c) * 10) \div T.lin ELSE (TurnDiff(a[3], c[3]) * 1000) \div T.ang, 3 + D100(a, c) \div (300 * T.lin))
         /\ UNCHANGED p
    [] T.op = "curv" ->
         /\ IF T.e - T.b <= 1 THEN T.c = 0
            ELSE T.e - T.b > 2 => LET s == SumCurv(p, T.b + 2, T.e, <<T.x, T.y>>, T.range, [s |-> 0, n |-> 0]) IN
                   Near(T.c * s.n, s.s, 20 * s.n + Abs(s.s) \div 50)
         /\ UNCHANGED p
    [] T.op = "arc" -> Near(T.c, IF T.rad > 0 THEN 1000000 \div T.rad ELSE 0 - (1000000 \div (0 - T.rad)), 10 + (1000000 \div Abs(T.rad)) \div 200) /\ UNCHANGED p
    [] T.op = "line" ->
         LET a == <<T.v[1], T.v[2]>>  b == <<T.v[3], T.v[4]>>  c == <<T.v[5], T.v[6]>>
             dx == b[1] - a[1]  dy == b[2] - a[2]  l2 == dx * dx + dy * dy
             cr == dx * (c[2] - a[2]) - dy * (c[1] - a[1])
             w == SegDist(a, b, c)  dt == Dot(dx, dy, c[1] - a[1], c[2] - a[2]) IN
         /\ Near(T.sd, w, Tol(w)) /\ Near(T.d, Abs(w), Tol(w))
         /\ l2 > 0 => /\ Near(Abs(T.ld), CrossLen(Abs(cr), l2), Tol(T.ld))
                      /\ (Abs(cr) > 0 /\ Abs(T.ld) > 4 => (cr > 0) = (T.ld > 0))
                      /\ Near((T.px - 100 * a[1]) * l2, 100 * dt * dx, 2 * l2 + Abs(dt * dx) \div 5)
                      /\ Near((T.py - 100 * a[2]) * l2, 100 * dt * dy, 2 * l2 + Abs(dt * dy) \div 5)
         /\ UNCHANGED p
    [] T.op = "rot" -> /\ T.rk = (T.k + T.a) % 16 /\ T.ranged
                       /\ Near(T.rx * 10, T.x * HCos(T.a) - T.y * HSin(T.a), 20 + Abs(T.x) + Abs(T.y))
                       /\ Near(T.ry * 10, T.x * HSin(T.a) + T.y * HCos(T.a), 20 + Abs(T.x) + Abs(T.y))
                       /\ UNCHANGED p
    [] OTHER -> FALSE
TraceInit == l = 1 /\ p = <<>> /\ path = <<>> /\ done = 0 /\ robot = 0 /\ goalSeen = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, p, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
