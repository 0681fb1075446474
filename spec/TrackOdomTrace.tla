--------------------------- MODULE TrackOdomTrace ---------------------------
EXTENDS TrackOdom, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, qo, qi, exp, tick
T == Trace[l]
tv == <<l, qo, qi, exp, tick>>
Keep == UNCHANGED <<last, seen, cons, n, big>>
M9(a) == [i \in 1..3 |-> <<a[3 * i - 2], a[3 * i - 1], a[3 * i]>>]
OMsg(e) == [t |-> e.t, p |-> e.p, rot |-> M9(e.rot), w |-> e.w, lin |-> e.lin]
IMsg(e) == [t |-> e.t, att |-> M9(e.att), g |-> e.g, tf |-> IF e.tf = <<>> THEN <<>> ELSE <<M9(e.tf)>>]
Later(q, t) == SelectSeq(q, LAMBDA x : x.t > t)
\* the two newest messages with one stamp are a pair; older ones without a partner are dropped
Handle(o, m) ==
  LET q == SeeOdom(c, SeeImu(st, m), o) IN
  /\ st' = q.st
  /\ exp' = IF q.out = <<>> THEN <<>> ELSE <<[pos |-> q.out[1].pos, att |-> q.out[1].att, g |-> q.out[1].g, t |-> o.t, lin |-> o.lin, d |-> q.d, x |-> q.st.k.x]>>
Idle == exp = <<>> /\ tick = 0
ROdom ==
  LET o == OMsg(T)  I == {i \in 1..Len(qi) : qi[i].t = o.t} IN
  IF I # {} THEN /\ Handle(o, qi[CHOOSE i \in I : TRUE]) /\ qi' = Later(qi, o.t) /\ qo' = <<>>
  ELSE /\ qo' = Append(qo, o) /\ UNCHANGED <<st, exp, qi>>
RImu ==
  LET m == IMsg(T)  I == {i \in 1..Len(qo) : qo[i].t = m.t} IN
  IF c.alone THEN st' = SeeImu(st, m) /\ UNCHANGED <<exp, qo, qi>>
  ELSE IF I # {} THEN /\ Handle(qo[CHOOSE i \in I : TRUE], m) /\ qo' = Later(qo, m.t) /\ qi' = <<>>
  ELSE /\ qi' = Append(qi, m) /\ UNCHANGED <<st, exp, qo>>
Near(a, b, t) == Abs(a - b) <= t
Same(a, M) == \A i \in 1..3 : \A j \in 1..3 : Near(a[3 * (i - 1) + j], 1000 * M[i][j], 2)
Len1(d) == Abs(d[1]) + Abs(d[2]) + Abs(d[3])
Fits(e) ==
  LET tol == 3 + (IF c.kf THEN (Len1(e.d) * (Abs(e.x) \div 30 + (IF e.x = 0 THEN 0 ELSE 30))) \div 8 ELSE 0) IN
  /\ \A i \in 1..3 : Near(T.p[i], e.pos[i], tol)
  /\ Same(T.rot, e.att)
\* published stamps are moved into the future by the configured tolerance
ROut ==
  /\ exp # <<>>
  /\ Fits(exp[1]) /\ \A i \in 1..3 : Near(T.ang[i], 100 * exp[1].g[i], 1) /\ T.lin[i] = exp[1].lin[i]
  /\ T.t = exp[1].t * 15625 + c.tol /\ T.frame = c.parent /\ T.child = c.child
  /\ st' = [st EXCEPT !.pos = T.p]     \* the next displacement starts at the published pose
  /\ exp' = (IF c.tf THEN <<[exp[1] EXCEPT !.pos = T.p]>> ELSE <<>>) /\ tick' = IF c.tf THEN 1 ELSE 0
RTf == /\ tick = 1 /\ exp # <<>> /\ \A i \in 1..3 : Near(T.p[i], exp[1].pos[i], 1)
       /\ Same(T.rot, exp[1].att) /\ T.t = exp[1].t * 15625 + c.tol /\ T.frame = c.parent /\ T.child = c.child
       /\ exp' = <<>> /\ tick' = 0 /\ UNCHANGED st
\* without wheel odometry a message is made at every tick of a 50 Hz timer; only those with a valid attitude are published
ATick ==
  LET o == [t |-> T.t, p |-> <<0, 0, 0>>, rot |-> Id, w |-> 0, lin |-> <<0, 0, 0>>] IN
  /\ Idle /\ st.odom
  /\ LET dt == T.ms - st.raw.t
         pos == <<st.pos[1], st.pos[2], IF c.zt > 0 THEN (IF dt * 64 >= c.zt * 1000 THEN 0 ELSE Trunc((st.pos[3] \div 10) * (c.zt * 1000 - dt * 64), c.zt * 100)) ELSE st.pos[3]>> IN
     /\ st.imu
     /\ \A i \in 1..3 : Near(T.p[i], pos[i], 15) /\ Near(T.ang[i], 100 * st.g[i], 1) /\ T.lin[i] = 0
     /\ Same(T.rot, st.att) /\ T.frame = c.parent /\ T.child = c.child /\ Near(T.ms - st.raw.t, 20, IF st.raw.fresh THEN 1 ELSE 1000000)
     /\ st' = [st EXCEPT !.pos = T.p, !.raw = [t |-> T.ms, fresh |-> TRUE]]
     /\ exp' = (IF c.tf THEN <<[pos |-> T.p, att |-> st.att, ms |-> T.ms]>> ELSE <<>>) /\ tick' = IF c.tf THEN 1 ELSE 0
ATf == /\ tick = 1 /\ \A i \in 1..3 : Near(T.p[i], exp[1].pos[i], 1) /\ Same(T.rot, exp[1].att) /\ T.ms = exp[1].ms /\ T.frame = c.parent /\ T.child = c.child
       /\ exp' = <<>> /\ tick' = 0 /\ UNCHANGED st
\* at an event of a run without wheels the timer must not be behind
Timely == ~c.alone \/ ~st.odom \/ ~st.imu \/ T.ms - st.raw.t < 21 \/ ~st.raw.fresh
Lost(s) == IF c.alone /\ s.odom /\ ~s.imu THEN [s EXCEPT !.raw.fresh = FALSE] ELSE s
Step ==
  CASE T.op = "begin" ->
         /\ c' = [fixed |-> T.fixed, alone |-> T.alone, zt |-> T.zt, tol |-> T.tol, kf |-> T.kf, neg |-> T.neg, tf |-> T.tf, S |-> T.S, sp |-> T.sp, ptc |-> T.ptc, parent |-> T.parent, child |-> T.child]
         /\ st' = IF T.alone THEN [Launch(c') EXCEPT !.odom = TRUE, !.raw = [t |-> 20, fresh |-> FALSE]] ELSE Launch(c')
         /\ qo' = <<>> /\ qi' = <<>> /\ exp' = <<>> /\ tick' = 0
    [] T.op = "odom" -> Idle /\ ROdom /\ UNCHANGED <<c, tick>>
    [] T.op = "imu" -> Idle /\ (Timely = TRUE) /\ (IF c.alone THEN st' = Lost(SeeImu(st, IMsg(T))) /\ UNCHANGED <<exp, qo, qi>> ELSE RImu) /\ UNCHANGED <<c, tick>>
    [] T.op = "resetz" -> Idle /\ (Timely = TRUE) /\ st' = ResetZ(st, T.z * Unit) /\ UNCHANGED <<c, qo, qi, exp, tick>>
    [] T.op = "pub" -> (IF c.alone THEN ATick ELSE tick = 0 /\ ROut) /\ UNCHANGED <<c, qo, qi>>
    [] T.op = "tf" -> (IF c.alone THEN ATf ELSE RTf) /\ UNCHANGED <<c, qo, qi>>
    [] T.op = "end" -> Idle /\ (Timely = TRUE) /\ T.how = "returned" /\ UNCHANGED <<c, st, qo, qi, exp, tick>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ c = 0 /\ st = Start /\ qo = <<>> /\ qi = <<>> /\ exp = <<>> /\ tick = 0 /\ last = <<>> /\ seen = 0 /\ cons = TRUE /\ n = 0 /\ big = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ Keep
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
