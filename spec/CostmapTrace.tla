---------------------------- MODULE CostmapTrace ----------------------------
EXTENDS Costmap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Claim    \* "C12", "C13" or "C14": which property decides
VARIABLES l, s
T == Trace[l]
\* geometry: footprint polygons in 1/16 cell, headings yaw/A of a turn (A divides 16), lengths compared in 1/160 cell
RECURSIVE ISqrtR(_, _, _)
ISqrtR(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtR(n, m, hi) ELSE ISqrtR(n, lo, m)
ISqrt(n) == ISqrtR(n, 0, 46340)
CosT == <<100000, 92388, 70711, 38268, 0, -38268, -70711, -92388, -100000, -92388, -70711, -38268, 0, 38268, 70711, 92388>>
C16(k) == CosT[(k % 16) + 1]
S16(k) == CosT[((k + 12) % 16) + 1]
\* obstacle at the origin seen from a robot at (x, y) cells with heading k/16 turn, in 1/160 cell
Seen(x, y, k) == <<(0 - x * C16(k) - y * S16(k)) \div 625, (x * S16(k) - y * C16(k)) \div 625>>
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
V10(v) == <<10 * v[1], 10 * v[2]>>
SegD(a, b, p) ==
  LET dx == b[1] - a[1]  dy == b[2] - a[2]
      d1 == dx * (p[1] - a[1]) + dy * (p[2] - a[2])
      d2 == (0 - dx) * (p[1] - b[1]) - dy * (p[2] - b[2]) IN
  IF d1 <= 0 THEN ISqrt(Sq(a, p)) ELSE IF d2 <= 0 THEN ISqrt(Sq(b, p))
  ELSE (Abs(dx * (p[2] - a[2]) - dy * (p[1] - a[1])) * 20) \div ISqrt((dx * dx + dy * dy) * 400)
N1(i, n) == IF i = n THEN 1 ELSE i + 1
PolyDist(f, p) == LET D == {SegD(V10(f[i]), V10(f[N1(i, Len(f))]), p) : i \in 1..Len(f)} IN CHOOSE d \in D : \A e \in D : d <= e
Crosses(a, b, p) ==
  /\ (a[2] <= p[2] /\ p[2] < b[2]) \/ (b[2] <= p[2] /\ p[2] < a[2])
  /\ LET lhs == (p[1] - a[1]) * (b[2] - a[2])  rhs == (b[1] - a[1]) * (p[2] - a[2]) IN IF b[2] > a[2] THEN lhs < rhs ELSE lhs > rhs
Inside(f, p) == Cardinality({i \in 1..Len(f) : Crosses(V10(f[i]), V10(f[N1(i, Len(f))]), p)}) % 2 = 1
Eps == 4
\* is cost c right at obstacle distance position p for the footprint f, expansion e, spread sp (1/16 cell) and minimum mc
CostOK(c, f, e, sp, mc, p) ==
  LET point == \A i \in 1..Len(f) : f[i] = <<0, 0>>
      d == PolyDist(f, p)
      Lin(dd) == 100 - ((dd - 10 * e) * (100 - mc)) \div (10 * sp) IN
  IF point /\ p = <<0, 0>> THEN c = 100
  ELSE IF ~point /\ Inside(f, p) /\ d > Eps THEN c = 100
  ELSE IF ~point /\ d <= Eps /\ c = 100 THEN TRUE
  ELSE IF d < 10 * e - Eps THEN c = 100
  ELSE IF d > 10 * (e + sp) + Eps THEN c = 0
  ELSE \/ d <= 10 * e + Eps /\ c = 100
       \/ d >= 10 * (e + sp) - Eps /\ (c = 0 \/ Abs(c - mc) <= 1)
       \/ sp > 0 /\ c <= Min(100, Lin(Max(10 * e, d - Eps)) + 1) /\ c >= Max(mc, Lin(Min(10 * (e + sp), d + Eps))) - 1
Rad2(f) == LET D == {f[i][1] * f[i][1] + f[i][2] * f[i][2] : i \in 1..Len(f)} IN CHOOSE d \in D : \A e \in D : d >= e
RangeOf(L) == CHOOSE n \in 0..20 : LET q == 16 * n - L.exp - L.spr IN q >= 0 /\ q * q >= Rad2(L.foot) /\ (n = 0 \/ LET q1 == q - 16 IN q1 < 0 \/ q1 * q1 < Rad2(L.foot))
HasStop == \E i \in 1..Len(s.cfg.layers) : s.cfg.layers[i].kind = "stop"
\* learned from a single obstacle at cell (ex, ey) of a costmap
Learn(data, W, H, A, R, ex, ey) ==
  [r |-> R, c |-> [a \in 1..A |-> [j \in 1..((2 * R + 1) * (2 * R + 1)) |->
       LET dx == ((j - 1) % (2 * R + 1)) - R  dy == ((j - 1) \div (2 * R + 1)) - R IN LET v == data[((a - 1) * H + ey + dy) * W + ex + dx + 1] IN IF v < 0 /\ HasStop THEN 0 ELSE v]]]
TmplOK(Tm, L, A) == \A a \in 1..A : \A j \in 1..Len(Tm.c[a]) :
   LET n == 2 * Tm.r + 1  dx == ((j - 1) % n) - Tm.r  dy == ((j - 1) \div n) - Tm.r IN
   CostOK(Tm.c[a][j], L.foot, L.exp, L.spr, L.min, Seen(dx, dy, ((a - 1) * 16) \div A))
Sel(q, P(_)) == LET RECURSIVE F(_)
                    F(i) == IF i > Len(q) THEN <<>> ELSE IF P(q[i]) THEN <<q[i]>> \o F(i + 1) ELSE F(i + 1) IN F(1)
IsC(o) == o.k = "costmap"
IsU(o) == o.k = "update"
Idx(topic) == CHOOSE i \in 1..Len(s.cfg.layers) : s.cfg.layers[i].name = topic /\ s.cfg.layers[i].kind # "out"
OutIdx == CHOOSE i \in 1..Len(s.cfg.layers) : s.cfg.layers[i].kind = "out"
Mp(t) == [w |-> t.w, h |-> t.h, ox |-> t.ox, oy |-> t.oy, frame |-> t.frame, data |-> t.data]
StaticOf(b, os, ts, cfg) == Chain(BaseCost(b, ts[Len(ts)], cfg.angle), SubSeq(cfg.layers, 1, OutIdx), 1, ts, os, b, cfg.angle)
FullOf(st, b, os, ts, cfg) == Chain(st, cfg.layers, OutIdx + 1, ts, os, b, cfg.angle)
Plainish == \A i \in (OutIdx + 1)..Len(s.cfg.layers) : s.cfg.layers[i].kind \notin {"stop", "unknown"}
NoUnknown == \A i \in (OutIdx + 1)..Len(s.cfg.layers) : s.cfg.layers[i].kind # "unknown"
UpdOK(u, b, A) == /\ u.ok
                  /\ IF u.w * u.h * u.a = 0 THEN u.data = <<>> ELSE u.x + u.w <= b.w /\ u.y + u.h <= b.h /\ u.yaw + u.a <= A /\ Len(u.data) = u.w * u.h * u.a
RECURSIVE Accum(_, _, _, _)
Accum(c, q, W, H) == IF q = <<>> THEN c ELSE IF IsC(q[1]) THEN Accum(q[1].data, Tail(q), W, H) ELSE Accum(Consume(c, q[1], W, H), Tail(q), W, H)
\* what has been published by one event, given the new state (b, os) ; dyn: an update is due, stat: a full costmap is due
Published(b, os, ts, outs, stat, dyn) ==
  LET A == s.cfg.angle
      cs == Sel(outs, IsC)  us == Sel(outs, IsU)
      st == StaticOf(b, os, ts, s.cfg)
      fu == FullOf(st, b, os, ts, s.cfg)
      pub == IF cs = <<>> THEN s.pub ELSE cs[Len(cs)].data
      acc == Accum(s.acc, outs, b.w, b.h) IN
  /\ stat => cs # <<>>
  /\ dyn => us # <<>>
  /\ \A i \in 1..Len(cs) : cs[i].ok /\ cs[i].w = b.w /\ cs[i].h = b.h /\ cs[i].a = A /\ cs[i].ox = b.ox /\ cs[i].oy = b.oy
  /\ \A i \in 1..Len(us) : UpdOK(us[i], b, A)
  /\ cs # <<>> => pub = st                            \* every full costmap is the static chain, exactly
  /\ Claim = "C13" /\ us # <<>> =>
       LET u == us[Len(us)] IN
       /\ u.w * u.h * u.a > 0 => \A k \in 1..(b.w * b.h * A) : InReg(k, u, b.w, b.h) => UpdAt(u, k, b.w, b.h) = fu[k]
       /\ NoUnknown => acc = fu
  /\ Claim = "C14" /\ us # <<>> /\ dyn /\ Plainish => Consume(pub, us[Len(us)], b.w, b.h) = fu
After(b, os, ts, outs) ==
  LET cs == Sel(outs, IsC) IN
  s' = [s EXCEPT !.b = b, !.os = os, !.ts = ts, !.pub = IF cs = <<>> THEN s.pub ELSE cs[Len(cs)].data, !.acc = Accum(s.acc, outs, b.w, b.h)]
Visible(i) == \A j \in (i + 1)..Len(s.cfg.layers) : s.cfg.layers[j].kind # "stop"
IsDyn(i) == i > OutIdx
Step ==
  CASE T.op = "begin" ->
         s' = [cfg |-> T.cfg, b |-> <<>>, os |-> [i \in 1..Len(T.cfg.layers) |-> <<>>],
               ts |-> [i \in 1..(Len(T.cfg.layers) + 1) |-> LET L == IF i <= Len(T.cfg.layers) THEN T.cfg.layers[i] ELSE T.cfg.root IN
                          IF L.kind \in {"footprint", "plain"} THEN [r |-> RangeOf(L), c |-> IF RangeOf(L) = 0 THEN [a \in 1..T.cfg.angle |-> <<100>>] ELSE <<>>] ELSE [r |-> 0, c |-> <<>>]],
               pub |-> <<>>, acc |-> <<>>]
    [] T.op = "base" ->
         LET b == Mp(T)  n == Len(s.ts) IN
         IF T.probe THEN
           \* a single obstacle in the middle of an empty map: the template of the root layer
           /\ Len(T.outs) >= 1 /\ IsC(T.outs[1])
           /\ LET tm == Learn(T.outs[1].data, b.w, b.h, s.cfg.angle, s.ts[n].r, b.w \div 2, b.h \div 2) IN
              /\ (Claim = "C12" /\ Visible(0) => TmplOK(tm, s.cfg.root, s.cfg.angle)) = TRUE
              /\ Published(b, s.os, [s.ts EXCEPT ![n] = tm], T.outs, TRUE, s.b = <<>> /\ \E i \in 1..Len(s.os) : IsDyn(i) /\ s.os[i] # <<>>) = TRUE
              /\ After(b, s.os, [s.ts EXCEPT ![n] = tm], T.outs)
         ELSE LET early == s.b = <<>>  d == \E i \in 1..Len(s.os) : IsDyn(i) /\ s.os[i] # <<>>  IN
              (Published(b, s.os, s.ts, T.outs, TRUE, early /\ d)) = TRUE /\ After(b, s.os, s.ts, T.outs)
    [] T.op = "ov" ->
         LET i == Idx(T.topic)  os == [s.os EXCEPT ![i] = Mp(T)]  L == s.cfg.layers[i] IN
         IF s.b = <<>> THEN T.outs = <<>> /\ s' = [s EXCEPT !.os = os]
         ELSE IF T.probe /\ L.kind \in {"footprint", "plain"} THEN
           \* a single obstacle on an empty base map and empty lower layers
           /\ LET o == T.outs[Len(T.outs)]
                  data == IF IsC(o) THEN o.data ELSE Consume(s.pub, o, s.b.w, s.b.h)
                  tm == Learn(data, s.b.w, s.b.h, s.cfg.angle, s.ts[i].r, s.b.w \div 2, s.b.h \div 2) IN
              /\ (Claim = "C12" /\ Visible(i) => TmplOK(tm, L, s.cfg.angle)) = TRUE
              /\ (Published(s.b, os, [s.ts EXCEPT ![i] = tm], T.outs, ~IsDyn(i), IsDyn(i))) = TRUE
              /\ After(s.b, os, [s.ts EXCEPT ![i] = tm], T.outs)
         ELSE (Published(s.b, os, s.ts, T.outs, ~IsDyn(i), IsDyn(i))) = TRUE /\ After(s.b, os, s.ts, T.outs)
    [] T.op = "end" -> T.outs = <<>> /\ T.how = "returned" /\ UNCHANGED s
    [] OTHER -> FALSE
TraceInit == l = 1 /\ s = 0 /\ base = 0 /\ ov = 0 /\ lay = 0 /\ prevR = 0 /\ sent = 0 /\ got = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
