--------------------------- MODULE Planner3DModel ---------------------------
(* Exhaustive exploration of the planner_3d node specification on a corridor of three cells: every order (of any length) of maps, updates,    *)
(* robot poses, goals from three sources, cancels, escapes, and planning cycles, with a watchdog.                             *)
EXTENDS Planner3D
CONSTANTS MaxGoals, Trig, Esc, Retry, Over
VARIABLES s, c, seen, now, given, results, out, n
mvars == <<s, c, seen, now, given, results, out, n>>
Conf == [watchdog |-> 1, retry |-> Retry, acc |-> 50, tol |-> 1, lin |-> 0, ang |-> 0, fin |-> 500, force |-> 1, retain |-> 0, esc |-> Esc, crowd |-> 0, escr |-> 1, escmin |-> 0,
         tel |-> 0, tea |-> 0, over |-> Over, unk |-> 100, fast |-> 0, range |-> 0, local |-> 20, trig |-> Trig, sw |-> 0, anti |-> 0, best |-> 0]
Bases == {<<0, 0, 0>>, <<0, 100, 100>>}
Upds == {[x |-> 1, y |-> 0, z |-> 0, w |-> 1, h |-> 1, a |-> 1, d |-> <<100>>, stamp |-> 0], [x |-> 0, y |-> 0, z |-> 0, w |-> 1, h |-> 1, a |-> 1, d |-> <<-1>>, stamp |-> 0],
         [x |-> 3, y |-> 0, z |-> 0, w |-> 1, h |-> 1, a |-> 1, d |-> <<100>>, stamp |-> 5],
         [x |-> 1, y |-> 0, z |-> 0, w |-> 2, h |-> 1, a |-> 1, d |-> <<0, 50>>, stamp |-> 0]}
At(x) == <<(1000 * x) + 500, 500, 0>>
Places == {<<>>, At(0), At(2)}
Given(a, id) == [a |-> a, id |-> id]
\* number of results per goal
Rec(rs, r) == [g \in DOMAIN rs \cup {Given(r[k][1], r[k][2]) : k \in DOMAIN r} |-> (IF g \in DOMAIN rs THEN rs[g] ELSE 0) + Cardinality({k \in DOMAIN r : Given(r[k][1], r[k][2]) = g})]
Take(o, cycle) == /\ s' = o.s /\ out' = [cycle |-> cycle, o |-> o, before |-> s, seen |-> IF Trig = 1 \/ cycle THEN seen ELSE s.pos]
                  /\ results' = Rec(results, o.res)
Samp == IF s.map /\ Trig = 0 THEN [s EXCEPT !.pos = seen] ELSE s
MInit == s = Start0 /\ c = Conf /\ seen = None /\ now = 0 /\ given = {} /\ results = <<>> /\ out = None /\ n = 0
Quiet == UNCHANGED <<results>> /\ out' = None
MapA == \E d \in Bases : \E o \in NewMap(s, c, [w |-> 3, h |-> 1, a |-> 1, ox |-> 0, oy |-> 0, d |-> d, stamp |-> 3], now, seen) : Take(o, FALSE) /\ UNCHANGED <<c, seen, now, given, n>>
UpdA == \E u \in Upds : \E o \in Update(s, c, u, now, seen) : Take(o, Trig = 1 /\ s.map) /\ UNCHANGED <<c, seen, now, given, n>>
PoseA == \E p \in Places : p # seen /\ seen' = p /\ s' = (IF s.map /\ Trig = 0 THEN [s EXCEPT !.pos = p] ELSE s) /\ Quiet /\ UNCHANGED <<c, now, given, n>>
Tick == s.last >= 0 /\ now - s.last <= c.watchdog /\ now' = now + 1 /\ UNCHANGED <<s, c, seen, given, n>> /\ Quiet
GoalA == /\ n < MaxGoals /\ n' = n + 1 /\ UNCHANGED <<c, seen, now>>
         /\ \E x \in {0, 2, 3}, q \in BOOLEAN, a \in {"topic", "mb", "tol"}, cont \in BOOLEAN :
            LET e == [a |-> a, id |-> n + 1, p |-> At(x), frame |-> TRUE, quat |-> q, lin |-> 0, ang |-> 0, fin |-> 500, cont |-> cont] IN
            IF a = "topic" THEN cont /\ given' = given /\ \E o \in TopicGoal(s, c, e) : Take(o, FALSE)
            ELSE (a = "tol" \/ cont) /\ given' = given \cup {Given(a, n + 1)} /\ \E o \in ActionGoal(s, c, e) : Take(o, FALSE)
CancelA == \E a \in {"mb", "tol"} : \E o \in Cancel(s, [a |-> a, id |-> 0]) : Take(o, FALSE) /\ UNCHANGED <<c, seen, now, given, n>>
EscapeA == \E x \in Escape(s, c) : Take(Out(<<>>, <<>>, <<>>, x), FALSE) /\ UNCHANGED <<c, seen, now, given, n>>
CycleA == Trig = 0 /\ \E o \in Cycle(Samp, c, now) : Take(o, TRUE) /\ UNCHANGED <<c, seen, now, given, n>>
MNext == MapA \/ UpdA \/ PoseA \/ Tick \/ GoalA \/ CancelA \/ EscapeA \/ CycleA
MSpec == MInit /\ [][MNext]_mvars
\* the outputs of the last step are checked on every transition and do not distinguish states
Age == IF s.last < 0 THEN c.watchdog + 1 ELSE Min(now - s.last, c.watchdog + 1)
MView == <<[s EXCEPT !.stuck = Min(@, Retry + 1), !.last = Age], seen, given, results, n>>
\* ---- C09
Open(g) == (s.act = g.a /\ s.id[g.a] = g.id) \/ s.pend[g.a] = g.id
OneOutcome == \A g \in given : (IF g \in DOMAIN results THEN results[g] ELSE 0) = IF Open(g) THEN 0 ELSE 1
NoStray == DOMAIN results \subseteq given
ActiveHasGoal == s.act # "" => s.goal
StatusConsistent == (s.st = DONE) = ~s.goal
Has(o, k) == \E i \in DOMAIN o.paths : o.paths[i].k = k
AllEmpty(o) == \A i \in DOMAIN o.paths : o.paths[i].k = "empty"
IdleEmpty == out.cycle /\ ~out.before.goal => AllEmpty(out.o)
\* success: finishing at the goal, or near it in the continuous movement mode
SuccessNear == (out.cycle /\ \E k \in DOMAIN out.o.res : out.o.res[k][3] = RES_SUCCEEDED) =>
                 out.before.st = FINISHING \/ (out.before.tol # None /\ out.before.tol[1].cont)
ErrorPath == out.cycle /\ Has(out.o, "plan") /\ c.best = 0 /\ ~out.o.s.esc /\ ~out.before.esc => out.o.s.err = WELL
\* ---- C10
Stale == s.last < 0 \/ now - s.last > c.watchdog
StaleEmpty == out.cycle /\ s.map /\ (Stale \/ (Trig = 0 /\ seen = None)) => AllEmpty(out.o)
StaleReported == out.cycle /\ Stale /\ (out.before.goal \/ c.retain = 1) => s.err = MISSING
Step == out # None => IdleEmpty /\ SuccessNear /\ ErrorPath /\ StaleEmpty /\ StaleReported
Steps == [][Step']_mvars
Withdrawn == [][(out' # None /\ s'.map /\ (~s.map \/ s'.base # s.base)) => out'.o.paths # <<>> /\ out'.o.paths[1].k = "empty"]_mvars
\* ---- C11: cells outside of the latest update are those of the base map; inside the greater cost, or the update's in the overwrite mode
Layered == s.map => /\ Len(s.cm) = s.m.w * s.m.h * s.m.a
                    /\ \/ s.cm = s.base
                       \/ \E u \in Upds : Fits(s.m, u) /\ \A i \in DOMAIN s.cm : s.cm[i] = IF Covers(u, XOf(s.m, i), YOf(s.m, i)) THEN (IF Over = 1 /\ UAt(u, XOf(s.m, i), YOf(s.m, i), 0) >= 0 THEN UAt(u, XOf(s.m, i), YOf(s.m, i), 0) ELSE Max(s.base[i], UAt(u, XOf(s.m, i), YOf(s.m, i), 0))) ELSE s.base[i]
=============================================================================
