----------------------------- MODULE Planner3D -----------------------------
(* The planning node (planner_3d): base map and region updates, robot pose, goals from the topic and from the two action     *)
(* servers, planning cycles with their outputs (paths, status, results, feedback), watchdog, relocation, finishing, temporary *)
(* escape. Lengths are in 1/1000 cell, angles in 1/1000 angular cell, times in ms. A state s and a configuration c are        *)
(* records; every operator returns the set of allowed results.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
DONE == 0
DOING == 1
FINISHING == 2
WELL == 0
ROCK == 1
NOPATH == 2
MISSING == 4
RES_PREEMPTED == 2
RES_SUCCEEDED == 3
RES_ABORTED == 4
RES_RECALLED == 8
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Other(a) == IF a = "mb" THEN "tol" ELSE "mb"
NoGoal == [q |-> FALSE]
None == <<>>

\* ------------------------------------------------------------------ grids
Idx(m, x, y, z) == 1 + x + m.w * (y + (m.h * z))
XOf(m, i) == (i - 1) % m.w
YOf(m, i) == ((i - 1) \div m.w) % m.h
ZOf(m, i) == (i - 1) \div (m.w * m.h)
In(m, x, y) == x >= 0 /\ y >= 0 /\ x < m.w /\ y < m.h
Valid(m, v, r) == v[1] >= r /\ v[2] >= r /\ v[1] < m.w - r /\ v[2] < m.h - r
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* least cost over the angles of one cell
Least(m, d, x, y) == MinOf({d[Idx(m, x, y, z)] : z \in 0..(m.a - 1)})
Known(c, d) == [i \in DOMAIN d |-> IF d[i] < 0 THEN c.unk ELSE d[i]]
RoughOf(m, d) == [i \in 1..(m.w * m.h) |-> Min(100, Least(m, d, XOf(m, i), YOf(m, i)))]
Uniform(m, d) == \A i \in DOMAIN d : d[i] = d[1 + ((i - 1) % (m.w * m.h))]
\* an update covers a cell / an angle of it; outside the map the update is not used
Fits(m, u) == u.x + u.w <= m.w /\ u.y + u.h <= m.h /\ u.z + u.a <= m.a
Covers(u, x, y) == u.x <= x /\ x < u.x + u.w /\ u.y <= y /\ y < u.y + u.h
UAt(u, x, y, z) == u.d[1 + (x - u.x) + (u.w * ((y - u.y) + (u.h * (z - u.z))))]
Merge(c, b, u) == IF c.over = 1 THEN (IF u >= 0 THEN u ELSE b) ELSE Max(b, u)
\* C11: the working costmap is the base map with the latest update merged in its region; the same for the rough map
CmOf(c, m, base, u) == IF u = None THEN base ELSE
  [i \in DOMAIN base |-> LET x == XOf(m, i)  y == YOf(m, i)  z == ZOf(m, i)  v == u[1] IN
     IF Covers(v, x, y) /\ v.z <= z /\ z < v.z + v.a THEN Merge(c, base[i], UAt(v, x, y, z)) ELSE base[i]]
RoughWith(m, rb, u) == IF u = None THEN rb ELSE
  [i \in DOMAIN rb |-> LET x == XOf(m, i)  y == YOf(m, i)  v == u[1] IN
     IF Covers(v, x, y) THEN Max(rb[i], MinOf({100} \cup {UAt(v, x, y, z) : z \in v.z..(v.z + v.a - 1)})) ELSE rb[i]]

\* ------------------------------------------------------------------ state
\* m: map size (w, h, a); base, rbase, cm, rough: costs; uni: the same cost for all angles; kept: update waiting for a larger map;
\* last: time of the last used update (-1: none); pos: robot pose or None; goal: a goal is being followed; raw, orig, cur: goal poses;
\* made: distance table available; rock: start occupied when it was built; stuck; st, err: reported status; act: active action server or "";
\* id: goal identifier per server; pend: pending identifier per server (0: none); tol: tolerances of the tolerant goal; esc: escaping
Start0 == [map |-> FALSE, m |-> [w |-> 0, h |-> 0, a |-> 1, ox |-> 0, oy |-> 0], base |-> <<>>, rbase |-> <<>>, cm |-> <<>>, rough |-> <<>>, uni |-> TRUE, kept |-> None, last |-> -1,
           pos |-> None, goal |-> FALSE, raw |-> None, orig |-> None, cur |-> None, made |-> FALSE, rock |-> FALSE, stuck |-> 0, st |-> DONE, err |-> WELL,
           act |-> "", id |-> [mb |-> 0, tol |-> 0], pend |-> [mb |-> 0, tol |-> 0], tol |-> None, esc |-> FALSE]
Cell(s, p) == <<(p[1] - s.m.ox) \div 1000, (p[2] - s.m.oy) \div 1000, ((p[3] + 500) \div 1000) % s.m.a>>
Center(s, v) == <<s.m.ox + (1000 * v[1]) + 500, s.m.oy + (1000 * v[2]) + 500, 1000 * v[3]>>
Cost(s, v) == s.cm[Idx(s.m, v[1], v[2], v[3])]
Sq(a, b) == ((a[1] - b[1]) * (a[1] - b[1])) + ((a[2] - b[2]) * (a[2] - b[2]))
Disc(s, c, v, r) == {u \in {<<x, y, v[3]>> : x \in (v[1] - r)..(v[1] + r), y \in (v[2] - r)..(v[2] + r)} : u # v /\ Sq(u, v) <= r * r /\ Valid(s.m, u, c.range)}
Nearest(v, S) == {u \in S : \A k \in S : Sq(u, v) <= Sq(k, v)}
\* the free cells nearest to v within the tolerance: preferably cheap ones
Substitutes(s, c, v) == LET D == Disc(s, c, v, c.tol)  cheap == {u \in D : Cost(s, u) < c.acc}  free == {u \in D : Cost(s, u) < 100} IN
  IF cheap # {} THEN Nearest(v, cheap) ELSE Nearest(v, free)
\* <<"ok", v>>, <<"moved", u>>, <<"rock">> or <<"out">>
Relocate(s, c, v) == IF ~Valid(s.m, v, c.range) THEN {<<"out">>}
                     ELSE IF Cost(s, v) # 100 THEN {<<"ok", v>>}
                     ELSE LET S == Substitutes(s, c, v) IN IF S = {} THEN {<<"rock">>} ELSE {<<"moved", u>> : u \in S}

\* ------------------------------------------------------------------ distance table
\* <<accepted, state>>
Table(s, c) ==
  IF ~s.goal THEN {<<TRUE, s>>}
  ELSE LET s0 == [s EXCEPT !.made = FALSE, !.rock = FALSE] IN
  IF ~s.map \/ s.pos = None THEN {<<TRUE, s0>>} ELSE
    UNION {LET a == pr[1]  b == pr[2] IN
      CASE a[1] = "out" -> {<<FALSE, s0>>}
        [] a[1] = "rock" -> {<<TRUE, [s0 EXCEPT !.stuck = @ + 1, !.rock = TRUE]>>}
        [] a[1] \in {"ok", "moved"} /\ b[1] = "out" -> {<<FALSE, s0>>}
        [] a[1] \in {"ok", "moved"} /\ b[1] = "rock" -> IF s.esc THEN {<<TRUE, [s0 EXCEPT !.raw = s.orig, !.cur = s.orig, !.esc = FALSE]>>}
                                                      ELSE {<<TRUE, [s0 EXCEPT !.stuck = @ + 1]>>}
        [] a[1] \in {"ok", "moved"} /\ b[1] = "moved" -> {<<TRUE, [s0 EXCEPT !.cur = Center(s, b[2]), !.made = TRUE]>>}
        [] OTHER -> {<<TRUE, [s0 EXCEPT !.cur = s.raw, !.made = TRUE]>>}
      : pr \in (Relocate(s, c, Cell(s, s.pos)) \X Relocate(s, c, Cell(s, s.raw)))}
TableS(s, c) == {r[2] : r \in Table(s, c)}

\* ------------------------------------------------------------------ reachability
Near8 == {<<x, y>> : x \in -1..1, y \in -1..1} \ {<<0, 0>>}
Near4 == {<<0, 1>>, <<1, 0>>, <<0, -1>>, <<-1, 0>>}
RECURSIVE Grow(_, _, _, _)
Grow(new, seen, free, nb) == LET n == {q \in {<<p[1] + d[1], p[2] + d[2]>> : p \in new, d \in nb} : q \in free /\ q \notin seen} IN
  IF n = {} THEN seen ELSE Grow(n, seen \cup n, free, nb)
FreeCells(s) == {<<XOf(s.m, i), YOf(s.m, i)>> : i \in {k \in DOMAIN s.rough : s.rough[k] < 100}}
\* on the rough map: leaving a lethal cell is not possible, entering one is (the robot may stand in one)
Reach(s, a, b) == <<a[1], a[2]>> = <<b[1], b[2]>> \/ LET F == FreeCells(s)  G == Grow({<<b[1], b[2]>>}, {<<b[1], b[2]>>}, F, Near8) IN
  <<b[1], b[2]>> \in F /\ \E d \in Near8 \cup {<<0, 0>>} : <<a[1] + d[1], a[2] + d[2]>> \in G
\* a plan exists for sure: straight moves and turns on the spot
MustPlan(s, c, a, b) == c.range > 0 /\ s.uni /\ LET F == {p \in FreeCells(s) : Valid(s.m, <<p[1], p[2], 0>>, c.range)} IN
  <<b[1], b[2]>> \in F /\ <<a[1], a[2]>> \in Grow({<<b[1], b[2]>>}, {<<b[1], b[2]>>}, F, Near4)

\* ------------------------------------------------------------------ outputs of one step
\* paths: sequence of descriptions; res: results; fb: servers given feedback
Out(p, r, f, s) == [paths |-> p, res |-> r, fb |-> f, s |-> s, pub |-> TRUE, set |-> FALSE]
Empty == [k |-> "empty"]
Result(s, a, code) == <<a, s.id[a], code>>
Feedback(s) == IF s.act = "" THEN <<>> ELSE <<<<s.act, s.id[s.act], s.pos>>>>
End(s, code) == IF s.act = "" THEN <<>> ELSE <<Result(s, s.act, code)>>

\* ------------------------------------------------------------------ goals
\* a goal pose is given: p, right frame, valid orientation. Returns <<accepted, results, state>>
SetGoal(s, c, p, frame, quat) ==
  IF ~(frame /\ s.map) THEN {<<FALSE, <<>>, s>>}
  ELSE IF ~quat THEN {<<TRUE, End(s, RES_SUCCEEDED), [s EXCEPT !.goal = FALSE, !.act = "", !.cur = None, !.st = DONE]>>}
  ELSE {IF r[1] THEN <<TRUE, <<>>, [r[2] EXCEPT !.st = DOING]>> ELSE <<FALSE, <<>>, [r[2] EXCEPT !.goal = FALSE, !.st = DONE]>>
        : r \in Table([s EXCEPT !.goal = TRUE, !.raw = p, !.orig = p, !.cur = p, !.stuck = 0, !.esc = FALSE], c)}
Preempt(s) == Out(<<>>, End(s, RES_PREEMPTED), <<>>, [s EXCEPT !.act = "", !.goal = FALSE, !.esc = FALSE, !.st = DONE])
TopicGoal(s, c, e) == IF s.act # "" THEN {Out(<<>>, <<>>, <<>>, s)} ELSE {[Out(<<>>, r[2], <<>>, r[3]) EXCEPT !.set = r[1] /\ r[3].goal] : r \in SetGoal(s, c, e.p, e.frame, e.quat)}
\* a goal reaches an action server: an active goal of the same server is preempted first; while the other server is active it waits
ActionGoal(s, c, e) ==
  LET recalled == IF s.pend[e.a] # 0 THEN <<<<e.a, s.pend[e.a], RES_RECALLED>>>> ELSE <<>>
      s1 == [s EXCEPT !.pend[e.a] = e.id]
      pre == IF s.act = e.a THEN Preempt(s1) ELSE Out(<<>>, <<>>, <<>>, s1)
      s2 == pre.s
      s3 == [s2 EXCEPT !.pend[e.a] = 0, !.id[e.a] = e.id, !.act = e.a, !.tol = IF e.a = "tol" THEN <<e>> ELSE @] IN
  IF s2.act # "" THEN {Out(<<>>, recalled \o pre.res, <<>>, s2)}
  ELSE {[Out(<<>>, recalled \o pre.res \o r[2] \o (IF r[1] THEN <<>> ELSE End(r[3], RES_ABORTED)), <<>>, IF r[1] THEN r[3] ELSE [r[3] EXCEPT !.act = ""]) EXCEPT !.set = r[1] /\ r[3].goal]
        : r \in SetGoal(s3, c, e.p, e.frame, e.quat)}
Cancel(s, e) == IF s.act = e.a /\ (e.id = 0 \/ e.id = s.id[e.a]) THEN {Preempt(s)} ELSE {Out(<<>>, <<>>, <<>>, s)}

\* ------------------------------------------------------------------ temporary escape (without crowd mode: some free pose around the robot)
EscapeGoals(s, c, a) ==
  LET D == {v \in {<<x, y, (z + s.m.a) % s.m.a>> : x \in (a[1] - c.escr)..(a[1] + c.escr), y \in (a[2] - c.escr)..(a[2] + c.escr), z \in (a[3] - (s.m.a \div 8))..(a[3] + (s.m.a \div 8))} :
            Sq(v, a) <= c.escr * c.escr /\ v # a /\ Valid(s.m, v, c.range)}
      cheap == {v \in D : Sq(v, a) >= (c.escr * c.escmin * c.escr * c.escmin) \div 1000000 /\ Cost(s, v) < c.acc} IN
  IF cheap # {} THEN cheap ELSE {v \in D : Cost(s, v) < 100}
Escape(s, c) ==
  IF ~s.map \/ ~s.goal \/ s.pos = None THEN {s}
  ELSE LET G == EscapeGoals(s, c, Cell(s, s.pos)) IN
    IF G = {} THEN {s}
    ELSE UNION {TableS([s EXCEPT !.esc = TRUE, !.raw = Center(s, v), !.cur = Center(s, v), !.st = IF @ = FINISHING THEN DOING ELSE @], c) : v \in G}

\* ------------------------------------------------------------------ planning
InTolerance(s, c, v) ==
  LET g == Cell(s, s.cur)  lin == IF s.esc THEN c.tel ELSE IF s.act = "tol" THEN s.tol[1].lin ELSE c.lin
      ang == IF s.esc THEN c.tea ELSE IF s.act = "tol" THEN s.tol[1].ang ELSE c.ang
      d == (v[3] - g[3]) % s.m.a IN
  Sq(v, g) <= lin * lin /\ Min(d, s.m.a - d) <= ang
\* candidate start cells: the robot's cell (with antialiasing also the closest neighbours), or the free cells nearest to it
StartCells(s, c) ==
  LET v == Cell(s, s.pos)  px == s.pos[1] - s.m.ox  py == s.pos[2] - s.m.oy  fx == px % 1000  fy == py % 1000
      N == {<<v[1] + dx, v[2] + dy, v[3]>> : dx \in {0, IF fx < 500 THEN -1 ELSE 1}, dy \in {0, IF fy < 500 THEN -1 ELSE 1}}
      own == IF c.anti = 1 THEN {u \in N : Valid(s.m, u, c.range) /\ Cost(s, u) < 100 /\
                                    (((px - (1000 * u[1] + 500)) * (px - (1000 * u[1] + 500))) + ((py - (1000 * u[2] + 500)) * (py - (1000 * u[2] + 500)))) <= 1000000}
             ELSE IF Cost(s, v) < 100 THEN {v} ELSE {} IN
  IF own # {} THEN {own} ELSE {{u} : u \in Substitutes(s, c, v)}
FinishPose(s, c) == IF c.force = 1 THEN s.raw ELSE s.cur
Fin(s, c) == [k |-> "fin", p |-> FinishPose(s, c)]
Plan(from, to) == [k |-> "plan", from |-> from, to |-> to]
AfterEscape(c, before, o) == IF before.esc \/ o.s.esc THEN [o EXCEPT !.s.err = NOPATH] ELSE o
\* the outcomes of making a plan; s.err is already WELL
Search(s, c, from) ==
  LET v == Cell(s, s.pos)  g == Cell(s, s.cur)  lost == [s EXCEPT !.err = NOPATH]
      blocked == {Out(<<Empty>>, <<>>, <<>>, x) : x \in IF c.esc = 1 THEN Escape(lost, c) ELSE {lost}} IN
  IF Cost(s, g) >= 100 \/ ~Reach(s, v, g) THEN blocked
  ELSE {Out(<<Plan(from, {g})>>, <<>>, <<>>, s)}
    \cup (IF c.local < 20 THEN blocked ELSE {})     \* the table may not extend to where the robot has moved
    \cup (IF \E a \in from : MustPlan(s, c, a, g) THEN {} ELSE {Out(<<Empty>>, <<>>, <<>>, lost)} \cup (IF c.best = 1 THEN {Out(<<Plan(from, {})>>, <<>>, <<>>, lost)} ELSE {}))
MakePlan(s, c) ==
  LET v == Cell(s, s.pos) IN
  IF ~Valid(s.m, v, c.range) \/ StartCells(s, c) = {} THEN {Out(<<Empty>>, <<>>, <<>>, [s EXCEPT !.err = ROCK])}
  ELSE UNION {
    IF \E a \in from : InTolerance(s, c, a)
    THEN IF s.esc THEN {Out(<<Empty>>, <<>>, <<>>, x) : x \in TableS([s EXCEPT !.esc = FALSE, !.raw = s.orig, !.cur = s.orig], c)}
         ELSE IF s.act = "tol" /\ s.tol[1].cont THEN {[o EXCEPT !.res = End(s, RES_SUCCEEDED)] : o \in Search([s EXCEPT !.act = ""], c, from)}
         ELSE {Out(<<Fin(s, c), Empty>>, <<>>, <<>>, [s EXCEPT !.st = FINISHING])}
    ELSE Search(s, c, from) : from \in StartCells(s, c)}
YawErr(s, c) == LET d == (s.pos[3] - FinishPose(s, c)[3]) % (1000 * s.m.a) IN Min(d, 1000 * s.m.a - d)
FinTol(s, c) == IF s.act = "tol" THEN s.tol[1].fin ELSE c.fin
\* one planning cycle at time now
Cycle(s00, c, now) ==
  UNION {
    LET stale == c.watchdog > 0 /\ (s0.last < 0 \/ now - s0.last > c.watchdog)
        s == IF stale THEN [s0 EXCEPT !.err = MISSING] ELSE s0
        first == IF stale THEN <<Empty>> ELSE <<>>  f == Feedback(s) IN
    IF s.map /\ s.goal /\ s.pos # None /\ ~stale
    THEN IF s.st = FINISHING
         THEN IF YawErr(s, c) < FinTol(s, c) THEN {Out(<<>>, End(s, RES_SUCCEEDED), f, [s EXCEPT !.st = DONE, !.goal = FALSE, !.act = ""])}
              ELSE {Out(<<Fin(s, c)>>, <<>>, f, s)}
         ELSE IF c.retry # -1 /\ s.stuck > c.retry
         THEN {[Out(<<Empty>>, End(s, RES_ABORTED), f, [s EXCEPT !.err = NOPATH, !.st = DONE, !.goal = FALSE, !.act = ""]) EXCEPT !.pub = FALSE]}
         ELSE IF ~s.made THEN {Out(<<Empty>>, <<>>, f, [s EXCEPT !.err = IF s.rock THEN ROCK ELSE NOPATH])}
         ELSE {[AfterEscape(c, s, o) EXCEPT !.fb = f] : o \in MakePlan([s EXCEPT !.err = WELL], c)}
    ELSE IF ~s.goal THEN {Out(first \o <<Empty>>, <<>>, <<>>, IF c.retain = 1 THEN s ELSE [s EXCEPT !.err = WELL])}
    ELSE {Out(first, <<>>, <<>>, s)}
    : s0 \in IF s00.map /\ ~s00.made /\ s00.goal THEN TableS(s00, c) ELSE {s00}}

\* ------------------------------------------------------------------ maps
\* a region update: ignored without a map, kept for later when it does not fit
UseUpdate(s, c, u, now) ==
  IF ~Fits(s.m, u) THEN {[s EXCEPT !.kept = <<u>>]}
  ELSE LET s1 == [s EXCEPT !.last = now, !.kept = None, !.cm = CmOf(c, s.m, s.base, <<u>>), !.rough = RoughWith(s.m, s.rbase, <<u>>),
                           !.uni = Uniform(s.m, s.base) /\ u.a = s.m.a /\ Uniform([w |-> u.w, h |-> u.h], u.d)] IN
    IF s1.pos = None \/ ~s1.goal THEN {s1}
    ELSE IF c.fast = 1 /\ Valid(s1.m, Cell(s1, s1.cur), c.range) /\ Cost(s1, Cell(s1, s1.cur)) # 100 THEN {s1}
    ELSE TableS(s1, c)
\* seen: the robot pose known when the planning is triggered by updates
Update(s, c, u, now, seen) ==
  IF ~s.map THEN {Out(<<>>, <<>>, <<>>, s)}
  ELSE IF c.trig = 1 THEN UNION {Cycle(x, c, now) : x \in UseUpdate([s EXCEPT !.pos = seen], c, u, now)}
  ELSE {Out(<<>>, <<>>, <<>>, x) : x \in UseUpdate(s, c, u, now)}
NewMap(s, c, e, now, seen) ==
  LET m == [w |-> e.w, h |-> e.h, a |-> e.a, ox |-> e.ox, oy |-> e.oy]  d == Known(c, e.d)  r == RoughOf(m, d)
      s1 == [s EXCEPT !.map = TRUE, !.m = m, !.base = d, !.cm = d, !.rbase = r, !.rough = r, !.uni = Uniform(m, d), !.kept = None]
      use == s.kept # None /\ s.kept[1].stamp >= e.stamp IN
  UNION {{[o EXCEPT !.paths = <<Empty>> \o @, !.s.kept = None] : o \in IF use THEN Update(x, c, s.kept[1], now, seen) ELSE {Out(<<>>, <<>>, <<>>, x)}} : x \in TableS(s1, c)}
=============================================================================
