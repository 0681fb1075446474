--------------------------- MODULE CyclicVecTrace ---------------------------
EXTENDS CyclicVec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Near(a, b, tol) == Abs(a - b) <= tol
Keep == UNCHANGED vars
Obs(r) == reg'[r] = T.v          \* the value the code holds afterwards
\* L100 is 100*sqrt(s2) rounded
RootOK(L100, s2) == Near(L100 * L100, 10000 * s2, 2 * L100 + 2)
Step ==
  CASE T.op = "begin" -> reg' = [r \in 0..3 |-> [k \in 1..T.dim |-> 0]] /\ dim' = T.dim /\ nc' = T.nc
    [] T.op = "set" -> Set(T.r, T.v)
    [] T.op = "add" -> Add(T.d, T.a, T.b) /\ Obs(T.d)
    [] T.op = "sub" -> Sub(T.d, T.a, T.b) /\ Obs(T.d)
    [] T.op = "mul" -> Mul(T.d, T.a, T.b) /\ Obs(T.d)
    [] T.op = "cycle" -> Cycle(T.r, T.res) /\ Obs(T.r)
    [] T.op = "cycleu" -> CycleU(T.r, T.res) /\ Obs(T.r)
    [] T.op = "exceed" -> T.res = Exceeded(T.r, T.lim) /\ Keep
    [] T.op = "eq" -> /\ T.eq = (reg[T.a] = reg[T.b]) /\ T.ne = (reg[T.a] # reg[T.b])
                      /\ (T.eq => T.heq) /\ T.found = T.eq /\ Keep
    [] T.op = "len" -> T.sq = SqLen(T.r) /\ RootOK(T.len, SqLen(T.r)) /\ RootOK(T.norm, SumSq(reg[T.r], dim)) /\ Keep
    [] T.op = "prod" -> T.cross = Cross(T.a, T.b) /\ T.dot = Dot(T.a, T.b) /\ Keep
    [] T.op = "conv" -> T.v = [k \in 1..Len(T.q) |-> RoundQ(T.q[k])] /\ T.back = [k \in 1..Len(T.q) |-> 4 * T.v[k]] /\ Keep
    \* distance of p from the segment / line a-b, coordinates from the registers, scaled by 100
    [] T.op = "line" ->
         LET p == reg[T.p]  a == reg[T.a]  b == reg[T.b]
             ab == <<b[1]-a[1], b[2]-a[2]>>  ap == <<p[1]-a[1], p[2]-a[2]>>  bp == <<p[1]-b[1], p[2]-b[2]>>
             cr == ab[1] * ap[2] - ab[2] * ap[1]
             dta == ab[1] * ap[1] + ab[2] * ap[2]
             dtb == -(ab[1] * bp[1] + ab[2] * bp[2])
             s2 == ab[1] * ab[1] + ab[2] * ab[2]
             \* d*|ab| = |cr|: d scaled by 100, compared as squares
             LineOK(d) == Near(Abs(d) * T.len, 10000 * Abs(cr), Abs(d) + T.len + 2)
         IN /\ RootOK(T.len, s2)
            /\ LineOK(T.line) /\ (cr > 0 => T.line >= 0) /\ (cr < 0 => T.line <= 0)
            /\ IF dta <= 0 THEN RootOK(T.seg, ap[1]*ap[1] + ap[2]*ap[2])
               ELSE IF dtb <= 0 THEN RootOK(T.seg, bp[1]*bp[1] + bp[2]*bp[2])
               ELSE T.seg >= 0 /\ LineOK(T.seg)
            /\ Keep
    \* rotation by k quarter turns (exact) of <x,y,th>, th and result heading in 1/1000 rad
    [] T.op = "rot90" ->
         LET k == T.k % 4
             e == CASE k = 0 -> <<T.x, T.y>> [] k = 1 -> <<-T.y, T.x>> [] k = 2 -> <<-T.x, -T.y>> [] OTHER -> <<T.y, -T.x>>
         IN /\ Near(T.rx, 1000 * e[1], 2 + Abs(T.x) + Abs(T.y)) /\ Near(T.ry, 1000 * e[2], 2 + Abs(T.x) + Abs(T.y))
            /\ Abs(T.rth) <= 3142
            /\ \E n \in -2..2 : Near(T.rth * 1000, T.th * 1000 + T.k * 1570796 + n * 6283185, 3000)
            /\ Keep
    \* general rotation keeps the plane length (scaled by 100) and the angle to the original
    [] T.op = "rot" ->
         /\ RootOK(T.len, T.x * T.x + T.y * T.y)
         /\ Near(T.rlen, T.len, 2)
         /\ Near(T.x * T.rx + T.y * T.ry, (T.x * T.x + T.y * T.y) * T.cos, 3 * (Abs(T.x) + Abs(T.y)) + (T.x * T.x + T.y * T.y) * 2)
         /\ Near(T.x * T.ry - T.y * T.rx, (T.x * T.x + T.y * T.y) * T.sin, 3 * (Abs(T.x) + Abs(T.y)) + (T.x * T.x + T.y * T.y) * 2)
         /\ Keep
    [] OTHER -> FALSE
TraceInit == reg = [r \in 0..3 |-> <<0, 0>>] /\ dim = 2 /\ nc = 2 /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
