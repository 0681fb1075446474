------------------------------ MODULE StartPose ------------------------------
(* Prediction of the pose from which the next plan starts, on the path that was published before (keep_a_part_of_previous_path). *)
(* Positions in 1/16 m, headings in sixteenths of a turn, times in ms. k: configuration and grid; every operator returns the     *)
(* set of allowed answers (inputs closer to a decision boundary than the rounding allow both).                                   *)
EXTENDS Path2D
\* k: pred, sb (ms), stop (1/100 unit), lin (unit/s), ang (sixteenth/s), res (units per cell, even), a (angles: 4, 8, 16), ox, oy, lethal (set of <<x, y, z>>)
CellX(k, q) == (q[1] - k.ox) \div k.res
CellY(k, q) == (q[2] - k.oy) \div k.res
Step16(k) == 16 \div k.a
\* angular cells of a heading (exactly between two of them: either)
CellZ(k, q) == LET s == Step16(k)  r == q[3] % s  b == (q[3] % 16) \div s IN
  IF 2 * r = s THEN {b % k.a, (b + 1) % k.a} ELSE IF 2 * r < s THEN {b % k.a} ELSE {(b + 1) % k.a}
Cells(k, q) == {<<CellX(k, q), CellY(k, q), z>> : z \in CellZ(k, q)}
Centre(k, q) == 2 * ((q[1] - k.ox) % k.res) = k.res /\ 2 * ((q[2] - k.oy) % k.res) = k.res /\ q[3] % Step16(k) = 0
\* the part of the path which is not passed yet: set of numbers of removed poses; {} when too far
Passed(w, k, t) ==
  LET n == Len(w)  S == 1..(n - 1)
      D(j) == IF j = 0 THEN D100(w[1], t) ELSE Abs(SegDist(w[j], w[j + 1], t))
      best == Best(w, 0, S, t)  tol == 2 + best \div 500
      far == IF best > k.stop + tol THEN {TRUE} ELSE IF best < k.stop - tol THEN {FALSE} ELSE BOOLEAN
      near == IF n = 1 THEN {0} ELSE {j \in S : D(j) <= best + tol} IN
  UNION {IF f THEN {-1}
         ELSE UNION {IF j > 1 THEN {j}
                     ELSE IF j = 0 THEN {0}
                     ELSE LET d1 == Dot(w[2][1] - w[1][1], w[2][2] - w[1][2], t[1] - w[1][1], t[2] - w[1][2]) IN
                          IF d1 <= 0 THEN {0} ELSE IF D100(w[1], t) - D(1) <= 1 THEN {0, 1} ELSE {1}
                     : j \in near} : f \in far}
\* arrival time at pose i (1-based) of the rest of the path
First(p, k, t) == LET a == (TurnDiff(p[1][3] % 16, t[3] % 16) * 1000) \div k.ang  d == (D100(p[1], t) * 10) \div k.lin IN IF a > d THEN a ELSE d
RECURSIVE Eta(_, _, _, _)
Eta(p, k, t, i) == IF i = 1 THEN First(p, k, t)
  ELSE Eta(p, k, t, i - 1) + (IF Sq(p[i - 1], p[i]) > 0 THEN (D100(p[i - 1], p[i]) * 10) \div k.lin ELSE (TurnDiff(p[i - 1][3] % 16, p[i][3] % 16) * 1000) \div k.ang)
\* truth of "eta of pose i is later than m"
Later(p, k, t, i, m) == LET e == Eta(p, k, t, i)  tol == 4 * i + (e \div 300) IN IF e > m + tol THEN {TRUE} ELSE IF e < m - tol THEN {FALSE} ELSE BOOLEAN
\* possible sequences of reversal points (index of the last pose before the reversal), in order
RECURSIVE Reversals(_, _)
Reversals(p, b) == UNION {IF g = Len(p) THEN {<<>>} ELSE {<<g>> \o r : r \in Reversals(p, g)} : g \in LocalGoal(p, b, Len(p), TRUE, FALSE, 0)}
RECURSIVE PickRev(_, _, _, _)
PickRev(p, k, t, gs) ==
  IF gs = <<>> THEN {0}
  ELSE LET i == Head(gs) IN
       UNION {IF ok THEN {i} ELSE PickRev(p, k, t, Tail(gs)) :
              ok \in {Centre(k, p[i]) /\ a /\ ~b : a \in Later(p, k, t, i, k.pred), b \in Later(p, k, t, i, k.sb)}}
RECURSIVE PickPose(_, _, _, _)
PickPose(p, k, t, i) ==
  IF i >= Len(p) THEN {Len(p)}
  ELSE UNION {IF ok THEN {i} ELSE PickPose(p, k, t, i + 1) : ok \in {Centre(k, p[i]) /\ a : a \in Later(p, k, t, i, k.pred)}}
Expected(p, k, t) == UNION {UNION {IF g > 0 THEN {g} ELSE PickPose(p, k, t, 1) : g \in PickRev(p, k, t, gs)} : gs \in Reversals(p, 0)}
\* an interior pose exactly between two angular cells may be counted in either
CollideSet(k, p, e) == IF \E j \in 1..(e - 1) : Cells(k, p[j]) \subseteq k.lethal THEN {TRUE}
                       ELSE IF \E j \in 1..(e - 1) : Cells(k, p[j]) \cap k.lethal # {} THEN BOOLEAN ELSE {FALSE}
Refused == [ok |-> FALSE, pres |-> <<>>, cell |-> <<>>, start |-> <<>>, len |-> 0]
\* answers for a previous path (as received), a grid and a robot pose
Predict(in, k, t) ==
  LET w == Merge(in, <<>>, 0, <<>>) IN
  IF w = <<>> THEN {Refused}
  ELSE UNION {IF c < 0 THEN {Refused}
              ELSE LET p == SubSeq(w, c + 1, Len(w)) IN
                   UNION {UNION {IF hit THEN {Refused}
                                 ELSE {[ok |-> TRUE, pres |-> SubSeq(p, 1, e - 1), cell |-> z, start |-> p[e], len |-> LenTo(p, 0, e - 1)] : z \in Cells(k, p[e])}
                                 : hit \in CollideSet(k, p, e)} : e \in Expected(p, k, t)}
              : c \in Passed(w, k, t)}
------------------------------------------------------------------------------
\* Exhaustive exploration: any robot pose next to one of the paths, an obstacle in any cell, consecutive predictions where the published path is the
\* preserved part followed by a new plan that begins at the predicted start (here: the rest of the old path).
CONSTANTS MPaths, MX, MY, MObst
VARIABLES cur, rob, obst, last
mvars == <<cur, rob, obst, last>>
MK == [pred |-> 400, sb |-> 3000, stop |-> 1250, lin |-> 8, ang |-> 4, res |-> 8, a |-> 4, ox |-> -20, oy |-> -20, lethal |-> obst]
MInit == cur \in MPaths /\ rob \in {<<x, y, h>> : x \in MX, y \in MY, h \in {0, 8}} /\ obst \in MObst /\ last = <<>> /\ path = <<>> /\ done = 0 /\ robot = 0 /\ goalSeen = 0
Ask == last = <<>> /\ \E o \in Predict(cur, MK, rob) : last' = <<o>> /\ UNCHANGED <<cur, rob, obst>>
Index(w, q) == CHOOSE i \in DOMAIN w : w[i] = q
\* the robot arrives at the start, from which the rest of the old path continues
Use == LET w == Merge(cur, <<>>, 0, <<>>) IN
  /\ last # <<>> /\ last[1].ok /\ Index(w, last[1].start) > 1
  /\ cur' = SubSeq(w, Index(w, last[1].start), Len(w)) /\ rob' = <<last[1].start[1], last[1].start[2], last[1].start[3]>> /\ last' = <<>> /\ UNCHANGED obst
MNext == (Ask \/ Use) /\ UNCHANGED vars
MSpec == MInit /\ [][MNext]_<<mvars, vars>>
Got == last # <<>> /\ last[1].ok
\* a contiguous part of the previous path, ending just before the start
OnPath == Got => LET o == last[1]  w == Merge(cur, <<>>, 0, <<>>) IN \E i \in 0..Len(w) : i + Len(o.pres) + 1 <= Len(w) /\ SubSeq(w, i + 1, i + Len(o.pres)) = o.pres /\ w[i + Len(o.pres) + 1] = o.start
Free == Got => \A j \in DOMAIN last[1].pres : Cells(MK, last[1].pres[j]) \cap obst = {} \/ Cardinality(Cells(MK, last[1].pres[j])) > 1
OnCentre == Got => LET w == Merge(cur, <<>>, 0, <<>>) IN last[1].start = w[Len(w)] \/ Centre(MK, last[1].start)
\* not before the prediction time, unless the path ends earlier
LateEnough == Got => LET o == last[1]  p == Append(o.pres, o.start)  w == Merge(cur, <<>>, 0, <<>>) IN
                       o.start = w[Len(w)] \/ TRUE \in Later(p, MK, rob, Len(p), MK.pred)
FarRefused == last # <<>> => LET w == Merge(cur, <<>>, 0, <<>>)  b == Best(w, 0, 1..(Len(w) - 1), rob) IN b > 1250 + 10 => ~last[1].ok
NothingKept == last # <<>> /\ ~last[1].ok => last[1].pres = <<>>
=============================================================================
