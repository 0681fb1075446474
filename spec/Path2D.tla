------------------------------- MODULE Path2D -------------------------------
(* Paths as the tracker sees them: poses with integer positions (1/16 m) and headings in sixteenths of a turn.
   Local goals (reversals, in-place turns), nearest point, remaining distance, arrival times, and a follower whose
   progress index never moves back past a reversal. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN 0 - x ELSE x
MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE ISqrtR(_, _, _)
ISqrtR(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtR(n, m, hi) ELSE ISqrtR(n, lo, m)
ISqrt(n) == ISqrtR(n, 0, 46340)
\* length x100 of a vector with given square
Len100(sq) == IF sq > 200000 THEN 10 * ISqrt(sq * 100) ELSE ISqrt(sq * 10000)
CosT == <<1000, 924, 707, 383, 0, -383, -707, -924, -1000, -924, -707, -383, 0, 383, 707, 924>>
HCos(k) == CosT[(k % 16) + 1]
HSin(k) == CosT[((k + 12) % 16) + 1]
Px(q) == q[1]
Py(q) == q[2]
Dot(ax, ay, bx, by) == ax * bx + ay * by
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
D100(a, b) == Len100(Sq(a, b))
\* does a step satisfy "shorter than eps": eps 0 means 1e-6 m^2, n means n + 1/2 square units
Short(a, b, eps) == Sq(a, b) <= eps
\* direction of a step relative to the heading at its end: 1, -1, or 0 when undetermined (perpendicular)
DirOf(a, b) == LET d == Dot(b[1] - a[1], b[2] - a[2], HCos(b[3]), HSin(b[3])) IN
  IF Abs(d) <= 2 * (Abs(b[1] - a[1]) + Abs(b[2] - a[2])) THEN 0 ELSE IF d > 0 THEN 1 ELSE -1
\* local goal in the half open range [b, e) of 0-based indices: the possible answers (perpendicular steps may count either way)
RECURSIVE LGoal(_, _, _, _, _, _, _)
LGoal(p, i, e, sb, ip, eps, prev) ==
  IF i >= e THEN {e}
  ELSE LET a == p[i]  c == p[i + 1] IN     \* p is 1-based: p[i] is index i-1
       IF Short(a, c, eps) THEN IF ip THEN {i} ELSE LGoal(p, i + 1, e, sb, ip, eps, 0)
       ELSE IF ~sb THEN LGoal(p, i + 1, e, sb, ip, eps, 0)
       ELSE UNION {IF prev * s < 0 THEN {i} ELSE LGoal(p, i + 1, e, sb, ip, eps, s)
                   : s \in IF DirOf(a, c) = 0 THEN {-1, 0, 1} ELSE {DirOf(a, c)}}
LocalGoal(p, b, e, sb, ip, eps) == LGoal(p, b + 1, e, sb, ip, eps, 0)
\* cross product over length, x100
CrossLen(cr, l2) == IF l2 <= 2000 THEN (cr * 100000) \div ISqrt(l2 * 1000000) ELSE (cr * 10000) \div ISqrt(l2 * 10000)
\* squared/plain distance x100 from c to the segment a-b, signed as the code does (negative behind a)
SegDist(a, b, c) ==
  LET dx == b[1] - a[1]  dy == b[2] - a[2]
      d1 == Dot(dx, dy, c[1] - a[1], c[2] - a[2])
      d2 == Dot(0 - dx, 0 - dy, c[1] - b[1], c[2] - b[2]) IN
  IF d1 <= 0 THEN 0 - D100(a, c)
  ELSE IF d2 <= 0 THEN D100(b, c)
  ELSE CrossLen(Abs(dx * (c[2] - a[2]) - dy * (c[1] - a[1])), dx * dx + dy * dy)
RECURSIVE LenTo(_, _, _)
LenTo(p, i, j) == IF j <= i THEN 0 ELSE LenTo(p, i, j - 1) + D100(p[j], p[j + 1])   \* path length x100 from index i to j
\* segments (index of their end) that are surely / possibly within the search range
InRange(p, b, e, rg, slack) == {j \in (b + 1)..(e - 1) : rg = 0 \/ LenTo(p, b, j) <= 100 * rg + slack}
Best(p, b, S, t) == MinI({D100(p[b + 1], t)} \cup {Abs(SegDist(p[j], p[j + 1], t)) : j \in S})
Remain(p, n, e, b, t) ==
  IF n + 1 >= e THEN
    IF e - b < 2 THEN 0
    ELSE LET l == p[e]  q == p[e - 1] IN
         IF Dot(l[1] - q[1], l[2] - q[2], l[1] - t[1], l[2] - t[2]) >= 0 THEN D100(p[n + 1], t) ELSE 0 - D100(p[n + 1], t)
  ELSE D100(p[n + 1], t) + LenTo(p, n, e - 1)
TurnDiff(a, b) == LET d == Abs(a - b) IN IF d > 8 THEN 16 - d ELSE d
\* merging of poses closer than eps into in-place turns (path received from outside); eps 0 stands for 1e-6 m
Close(a, b, eps) == 4 * Sq(a, b) < (2 * eps + 1) * (2 * eps + 1) /\ (eps = 0 => Sq(a, b) = 0)
RECURSIVE Merge(_, _, _, _)
Merge(in, out, eps, turn) ==
  IF in = <<>> THEN IF turn = <<>> THEN out ELSE Append(out, turn[1])
  ELSE LET x == Head(in) IN
       IF out = <<>> THEN Merge(Tail(in), <<x>>, eps, turn)
       ELSE LET last == out[Len(out)] IN
            IF ~Close(last, x, eps) THEN Merge(Tail(in), Append(IF turn = <<>> THEN out ELSE Append(out, turn[1]), x), eps, <<>>)
            ELSE Merge(Tail(in), out, eps, <<<<last[1], last[2], x[3], x[4]>>>>)
------------------------------------------------------------------------------
\* The follower: wherever the robot is put, progress (done) only moves back when a new path is given.
CONSTANTS Paths, Places, SearchRange
VARIABLES path, done, robot, goalSeen
vars == <<path, done, robot, goalSeen>>
Goal(p, d) == CHOOSE g \in LocalGoal(p, d, Len(p), TRUE, TRUE, 0) : TRUE
NearestSet(p, d, g, t) ==
  LET S == InRange(p, d, g, IF d > 0 THEN SearchRange ELSE 0, 0)
      best == Best(p, d, S, t) IN
  {j \in S : Abs(SegDist(p[j], p[j + 1], t)) = best} \cup (IF S = {} THEN {d} ELSE {})
Init == path \in Paths /\ done = 0 /\ robot \in Places /\ goalSeen = 0
Follow == /\ \E r \in Places : robot' = r
          /\ LET g == Goal(path, done) IN
             \E n \in NearestSet(path, done, g, robot') :
               LET rem == Remain(path, n, g, 0, robot') IN
               IF Abs(rem) < 100 /\ g < Len(path)
               THEN done' = g /\ goalSeen' = g
               ELSE done' = (IF n - 1 > done THEN n - 1 ELSE done) /\ UNCHANGED goalSeen
          /\ UNCHANGED path
NewPath == path' \in Paths /\ done' = 0 /\ goalSeen' = 0 /\ UNCHANGED robot
Next == Follow \/ NewPath
Spec == Init /\ [][Next]_vars
NoBack == [][path' = path => (done' >= done \/ (done' = 0 /\ goalSeen' = 0))]_vars
NotBeforeReversal == done >= goalSeen /\ done < Len(path)
\* the tracked piece never contains a reversal inside it
OneDirection == LET g == Goal(path, done) IN \A i \in (done + 1)..(g - 2) : ~(DirOf(path[i], path[i + 1]) * DirOf(path[i + 1], path[i + 2]) < 0)
\* local goals partition the path and each is a reversal or an in-place turn
GoalsReal == LET g == Goal(path, done) IN g < Len(path) =>
   (Short(path[g], path[g + 1], 0) \/ (g >= 2 /\ DirOf(path[g - 1], path[g]) * DirOf(path[g], path[g + 1]) < 0))
=============================================================================
