----------------------------- MODULE AccumTrace -----------------------------
EXTENDS Accum, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
T == Trace[l]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* rotation by quarter turns about z (k) after a quarter turn roll (r), then translation
Rz(p, k) == CASE k = 0 -> p [] k = 1 -> <<0 - p[2], p[1], p[3]>> [] k = 2 -> <<0 - p[1], 0 - p[2], p[3]>> [] k = 3 -> <<p[2], 0 - p[1], p[3]>>
Rx(p, r) == IF r = 0 THEN p ELSE <<p[1], 0 - p[3], p[2]>>
Move(p, t) == LET q == Rz(Rx(p, t[5]), t[4]) IN <<q[1] + t[1], q[2] + t[2], q[3] + t[3]>>
Moved(ps, t) == [i \in 1..Len(ps) |-> Move(ps[i], t)]
\* laser beams at quarter turns: ranges within [min, max)
Beam(i, r) == Rz(<<r, 0, 0>>, (i - 1) % 4)
RECURSIVE Beams(_, _, _, _)
Beams(rs, i, lo, hi) == IF i > Len(rs) THEN <<>> ELSE (IF rs[i] >= lo /\ rs[i] < hi THEN <<Beam(i, rs[i])>> ELSE <<>>) \o Beams(rs, i + 1, lo, hi)
Step ==
  CASE T.op = "begin" -> s' = [kind |-> T.kind, hold |-> <<T.hold, 0>>, buf |-> <<<<>>, <<>>>>, cfg |-> T, pub |-> 0 - 1000000000, seen |-> FALSE]
    [] T.op = "push" -> LET q == Push(s.buf[1], [stamp |-> T.stamp, id |-> T.id], s.hold[1]) IN
                        /\ T.ids = [i \in 1..Len(q) |-> q[i].id] /\ T.stamps = [i \in 1..Len(q) |-> q[i].stamp] /\ T.cids = T.ids
                        /\ s' = [s EXCEPT !.buf = <<q, <<>>>>]
    [] T.op = "reset" -> T.ids = <<>> /\ s' = [s EXCEPT !.buf = <<<<>>, <<>>>>, !.hold = <<T.hold, 0>>]
    [] T.op = "clear" -> T.ids = <<>> /\ s' = [s EXCEPT !.buf = <<<<>>, <<>>>>]
    [] T.op = "cloud" ->
         LET n == IF T.single THEN 2 ELSE 1
             raw == IF s.kind = "laser" THEN Beams(T.ranges, 1, T.rmin, T.rmax) ELSE T.pts
             q == IF T.tf = <<>> THEN s.buf ELSE [s.buf EXCEPT ![n] = Push(@, [stamp |-> T.stamp, pts |-> Moved(raw, T.tf)], s.hold[n])]
             due == s.pub + s.cfg.interval <= T.stamp IN
         \* a cloud that cannot be placed is ignored; whether it still triggers a map is left open
         /\ IF ~due \/ T.robot = <<>> THEN T.outs = <<>> ELSE IF T.tf = <<>> THEN Len(T.outs) <= 1 ELSE Len(T.outs) = 1
         /\ \A i \in 1..Len(T.outs) : LET o == T.outs[i]  w == s.cfg.width  res == s.cfg.res IN
              /\ o.ok /\ o.w = w /\ o.h = w
              /\ Abs(2 * (T.robot[1] - o.ox) - w * res) < 2 * res /\ Abs(2 * (T.robot[2] - o.oy) - w * res) < 2 * res
              /\ (2 * o.ox + w * res) % (2 * res) = 0 /\ (2 * o.oy + w * res) % (2 * res) = 0
              /\ o.data = Local(Points(q[1], 1) \o Points(q[2], 1), s.cfg.zmin, s.cfg.zmax, T.robot[3], o.ox, o.oy, res, w)
         /\ s' = [s EXCEPT !.buf = q, !.pub = IF due /\ (T.tf # <<>> \/ T.outs # <<>>) THEN T.stamp ELSE @]
    [] T.op = "end" -> T.how = "returned" /\ UNCHANGED s
    [] OTHER -> FALSE
TraceInit == l = 1 /\ s = 0 /\ buf = 0 /\ hold = 0 /\ newest = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
