------------------------------- MODULE CSpace -------------------------------
(* Permission and cost of motions in position-and-heading space (C07).         *)
(* A map is a function from cells <<x, y, heading>> to costs 0..100.           *)
EXTENDS Motion
CONSTANTS W, H      \* bounded model only
InMap(w, h, c) == c[1] >= 0 /\ c[1] < w /\ c[2] >= 0 /\ c[2] < h
Lethal(v) == v > 99
Mod(N, k) == ((k % N) + N) % N
Delta(N, cur, next) == <<next[1] - cur[1], next[2] - cur[2], next[3]>>
Shift(cur, c) == <<cur[1] + c[1], cur[2] + c[2], c[3]>>
\* headings passed by an in-place turn, one set per way round that is a shortest one
TurnCells(N, cur, next) ==
  LET k == DK(N, cur[3], next[3])
      way(q) == {<<cur[1], cur[2], Mod(N, cur[3] + (IF q < 0 THEN -i ELSE i))>> : i \in 0..Abs(q)}
  IN IF 2 * k = N THEN {way(k), way(-k)} ELSE {way(k)}
\* must the transition be refused / may it be refused?  (cell data m, map w*h, N headings)
MustRefuse(N, w, h, m(_), cur, next, er10) ==
  LET d == Delta(N, cur, next) IN
  IF d[1] = 0 /\ d[2] = 0
  THEN \A way \in TurnCells(N, cur, next) : \E c \in way : Lethal(m(c))
  ELSE \/ Lethal(m(cur)) \/ Lethal(m(next))
       \/ LET mo == Mot(N, cur[3], d) IN
          \E c \in Certain(mo, Poses(mo, Steps(d, er10))) : LET q == Shift(cur, c) IN IF InMap(w, h, q) THEN Lethal(m(q)) ELSE TRUE
MayRefuse(N, w, h, m(_), cur, next, er10, reach) ==
  LET d == Delta(N, cur, next) IN
  IF d[1] = 0 /\ d[2] = 0
  THEN \E way \in TurnCells(N, cur, next) : \E c \in way : Lethal(m(c))
  ELSE \/ Lethal(m(cur)) \/ Lethal(m(next))
       \/ /\ next[3] # cur[3]   \* a curve starting close to the edge of the map
          /\ \/ cur[1] < reach \/ cur[2] < reach \/ cur[1] >= w - reach \/ cur[2] >= h - reach
       \/ LET mo == Mot(N, cur[3], d) IN
          \E c \in Possible(mo, Poses(mo, Steps(d, er10))) : LET q == Shift(cur, c) IN IF InMap(w, h, q) THEN Lethal(m(q)) ELSE TRUE
\* lower bound of the cost: the estimate's share (coefficients in 1/10000, result in 1/10000)
EuclidLow(N, cur, next, c0, c2) ==
  LET d == Delta(N, cur, next) IN (c0 * ISqrt(SqLen(d) * 1000000)) \div 1000 + c2 * Abs(DK(N, cur[3], next[3]))
-----------------------------------------------------------------------------
(* bounded model: a robot that moves by permitted motions only on a map with one lethal pillar anywhere *)
VARIABLES pose, wall
cvars == <<mot, pose, wall>>
\* for every start heading: the feasible motions with the cells they certainly sweep
MTab == [h \in 0..(MN - 1) |->
  {[d |-> m.d, cells |-> Certain(m, Poses(m, Steps(m.d, MEr)))] :
     m \in {x \in {Mot(MN, h, <<a, b, e>>) : a \in (-MRange)..MRange, b \in (-MRange)..MRange, e \in 0..(MN - 1)} :
              SqLen(x.d) <= MRange * MRange /\ SqLen(x.d) > 0 /\ Feasible(x, K, 200, -Tol)}}]
MapOf(c) == IF c[1] = wall[1] /\ c[2] = wall[2] /\ (wall[3] = MN \/ wall[3] = c[3]) THEN 100 ELSE 0
Free(c) == InMap(W, H, c) /\ ~Lethal(MapOf(c))
CInit == /\ mot = [N |-> 0]
         /\ wall \in ((0..(W - 1)) \X (0..(H - 1)) \X {0, 1, MN})
         /\ pose \in {p \in {<<0, 0, 0>>, <<W - 1, H - 1, 1>>} : ~Lethal(MapOf(p))}
Goto(t) == <<pose[1] + t.d[1], pose[2] + t.d[2], t.d[3]>>
Permitted(t) == Free(Goto(t)) /\ \A c \in t.cells : Free(Shift(pose, c))
Turnable(k) == \E way \in TurnCells(MN, pose, <<pose[1], pose[2], k>>) : \A c \in way : Free(c)
CMove == /\ \/ \E t \in MTab[pose[3]] : Permitted(t) /\ pose' = Goto(t)
            \/ \E k \in (0..(MN - 1)) \ {pose[3]} : Turnable(k) /\ pose' = <<pose[1], pose[2], k>>
         /\ UNCHANGED <<mot, wall>>
CSpec == CInit /\ [][CMove]_cvars
\* the robot is never on a lethal cell or outside the map, and the two refusal rules agree with permission
NeverLethal == Free(pose)
RulesAgree ==
  /\ \A t \in MTab[pose[3]] : InMap(W, H, Goto(t)) => (Permitted(t) => ~MustRefuse(MN, W, H, MapOf, pose, Goto(t), MEr))
  /\ \A k \in (0..(MN - 1)) \ {pose[3]} : LET nx == <<pose[1], pose[2], k>> IN
       /\ Turnable(k) <=> ~MustRefuse(MN, W, H, MapOf, pose, nx, MEr)
       /\ MustRefuse(MN, W, H, MapOf, pose, nx, MEr) => MayRefuse(MN, W, H, MapOf, pose, nx, MEr, MRange + 1)
\* turning is symmetric: what can be turned can be turned back
TurnBack == \A k \in (0..(MN - 1)) \ {pose[3]} : Turnable(k) <=>
              \E way \in TurnCells(MN, <<pose[1], pose[2], k>>, pose) : \A c \in way : Free(c)
=============================================================================
