--------------------------- MODULE Planner3DTrace ---------------------------
EXTENDS Planner3D, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
T == Trace[l]
Def == [watchdog |-> 0, retry |-> -1, acc |-> 50, tol |-> 2, lin |-> 0, ang |-> 0, fin |-> 127, force |-> 1, retain |-> 1, esc |-> 1, crowd |-> 0, escr |-> 2, escmin |-> 500,
        tel |-> 1, tea |-> 4, over |-> 0, unk |-> 100, fast |-> 0, range |-> 3, local |-> 20, trig |-> 0, sw |-> 2000, anti |-> 0, best |-> 1, freq |-> 4000, wcost |-> 50, keep |-> 0,
        threads |-> 1, tasks |-> 16]
Over2(a, b) == [k \in DOMAIN a |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
\* g: s (planner state), c (configuration), seen (robot pose in the world), in (input being handled), now0 (last cycle), begun
New(e) == [s |-> Start0, c |-> Over2(Def, e.c), seen |-> None, in |-> None, last |-> e.t, slack |-> FALSE]
Close(a, b) == Abs(a - b) <= 4
SamePose(p, q) == Close(p[1], q[1]) /\ Close(p[2], q[2]) /\ LET d == (p[3] - q[3]) % (1000 * g.s.m.a) IN Min(d, 1000 * g.s.m.a - d) <= 4
\* a published path matches a description, in planner state s
FreeAt(s, p) == LET x == Cell(s, p)[1]  y == Cell(s, p)[2] IN In(s.m, x, y) /\ (s.uni => s.cm[Idx(s.m, x, y, 0)] < 100)
FitsPath(s, got, want) ==
  CASE want.k = "empty" -> got.p = <<>>
    [] want.k = "fin" -> Len(got.p) = 1 /\ got.map /\ SamePose(got.p[1], want.p)
    [] want.k = "plan" -> /\ got.p # <<>> /\ got.map
                          /\ \E a \in want.from : SamePose(got.p[1], Center(s, a))
                          /\ (want.to # {} => \E b \in want.to : SamePose(got.p[Len(got.p)], Center(s, b)))
                          /\ (\A k \in 1..Len(got.p) : FreeAt(s, got.p[k]))
\* nothing follows the path that starts the final alignment, or an empty path
FitsPaths(s, got, want) == \/ Len(got) = Len(want) /\ \A k \in DOMAIN got : FitsPath(s, got[k], want[k]) /\ got[k].now
                           \/ Len(want) = 2 /\ want[1].k = "fin" /\ Len(got) = 1 /\ FitsPath(s, got[1], want[1])
FitsFb(got, want) == Len(got) = Len(want) /\ \A k \in DOMAIN got : got[k][1] = want[k][1] /\ got[k][2] = want[k][2] /\ SamePose(got[k][3], want[k][3])
Level(err) == IF err = WELL THEN 0 ELSE 2
\* everything published in one step agrees with outcome o; planned: a planning cycle happened in it
Agrees(e, o, planned) ==
  /\ e.res = o.res
  /\ FitsPaths(o.s, e.paths, o.paths)
  /\ FitsFb(e.fb, o.fb)
  /\ IF planned /\ o.pub THEN /\ Len(e.st) = 1 /\ e.st[1] = <<o.s.st, o.s.err>>
                              /\ Len(e.cg) = 1 /\ (o.s.cur # None => SamePose(e.cg[1], o.s.cur))
                              /\ Len(e.diag) = 1 /\ e.diag[1] = Level(o.s.err)
                              /\ Len(e.met) = 1 /\ e.met[1] = <<o.s.st, o.s.err, o.s.stuck>>
     ELSE e.cg = <<>> /\ e.met = <<>>
\* a planning cycle is due at least this often while no updates trigger it (a cycle may wait for a transform)
Due == IF g.c.trig = 1 THEN g.last + 100000000 ELSE g.last + Max(1000000 \div g.c.freq, g.c.sw) + 350
InTime == T.t <= Due
Sampled == IF g.s.map /\ g.c.trig = 0 THEN [g EXCEPT !.s.pos = g.seen] ELSE g
\* input handled: what the callback published follows in the next event
Input == g.in = None /\ g' = [g EXCEPT !.in = <<T>>]
Pend == g.in[1]
Outcomes(e) ==
  CASE Pend.op = "map" -> NewMap(g.s, g.c, Pend, e.t, g.seen)
    [] Pend.op = "upd" -> Update(g.s, g.c, Pend, e.t, g.seen)
    [] Pend.op = "goal" -> TopicGoal(g.s, g.c, Pend)
    [] Pend.op = "ag" -> ActionGoal(g.s, g.c, Pend)
    [] Pend.op = "cancel" -> Cancel(g.s, Pend)
    [] Pend.op = "escape" -> {Out(<<>>, <<>>, <<>>, x) : x \in Escape(g.s, g.c) \cup (IF g.c.sw > 0 THEN {g.s} ELSE {})}
\* status published by a callback: a new goal is being followed
CallbackStatus(e, o) == e.st = IF o.set THEN <<<<DOING, o.s.err>>>> ELSE <<>>
Planned(o) == Pend.op \in {"map", "upd"} /\ g.c.trig = 1 /\ ((Pend.op = "upd" /\ g.s.map) \/ (Pend.op = "map" /\ g.s.kept # None /\ g.s.kept[1].stamp >= Pend.stamp))
Outs == g.in # None /\ \E o \in Outcomes(T) : /\ Agrees(T, o, Planned(o)) /\ (Planned(o) \/ CallbackStatus(T, o)) /\ g' = [g EXCEPT !.in = None, !.s = o.s]
CycleEv == g.in = None /\ InTime /\ LET h == Sampled IN \E o \in Cycle(h.s, g.c, T.t) : Agrees(T, o, TRUE) /\ g' = [h EXCEPT !.s = o.s, !.last = T.t]
\* ---- the plan service: on the rough map
PlanService ==
  LET s == g.s  c == g.c  a == Cell(s, T.s)  b == Cell(s, T.g)
      ca == [s EXCEPT !.cm = [i \in DOMAIN @ |-> s.rough[1 + ((i - 1) % (s.m.w * s.m.h))]]]
      cc == [c EXCEPT !.tol = T.tol]
      A == Relocate(ca, cc, <<a[1], a[2], 0>>)  B == Relocate(ca, cc, <<b[1], b[2], 0>>)
      bad(R) == R = {<<"out">>} \/ R = {<<"rock">>} IN
  IF ~s.map \/ ~T.frame THEN ~T.ok
  ELSE s.uni => IF bad(A) \/ bad(B) THEN ~T.ok
       ELSE \E p \in A, q \in B :
            IF T.ok THEN Len(T.p) > 0 /\ Reach(s, p[2], q[2]) /\ LET f == T.p[1]  e == T.p[Len(T.p)] IN
                 /\ SubSeq(Cell(s, f), 1, 2) = SubSeq(p[2], 1, 2) /\ SubSeq(Cell(s, e), 1, 2) = SubSeq(q[2], 1, 2)
                 /\ \A k \in 1..Len(T.p) : FreeAt(s, T.p[k])
            ELSE SubSeq(p[2], 1, 2) = SubSeq(q[2], 1, 2) \/ ~(\E r \in A, t \in B : MustPlan(s, c, r[2], t[2]))
Step ==
  CASE T.op = "begin" -> g' = New(T)
    [] T.op = "pose" -> InTime /\ g' = [g EXCEPT !.seen = <<T.x, T.y, T.a>>]
    [] T.op = "nopose" -> InTime /\ g' = [g EXCEPT !.seen = None]
    [] T.op = "settled" -> InTime /\ g' = Sampled
    [] T.op \in {"map", "upd", "goal", "ag", "cancel", "escape"} -> InTime /\ Input
    [] T.op = "outs" -> Outs
    [] T.op \in {"cycle", "timer"} -> CycleEv
    [] T.op = "cfg" -> InTime /\ g' = [g EXCEPT !.c = Over2(@, T.c), !.s.made = @ /\ ~g.s.map]
    [] T.op = "dump" -> InTime /\ T.d = g.s.cm /\ T.r = g.s.rough /\ UNCHANGED g
    [] T.op = "mkplan" -> PlanService /\ UNCHANGED g
    [] T.op = "end" -> InTime /\ T.how = "returned" /\ UNCHANGED g
    [] OTHER -> FALSE
TraceInit == l = 1 /\ g = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<l, g>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
