----------------------------- MODULE JointModel -----------------------------
(* Two-joint planning model (property C05). Joint states are cells of a two-   *)
(* turn grid (2R x 2R); costs are read modulo one turn (R).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
\* signed reduction to one turn, as in property C03
Cyc(v, R) == LET u == v % R IN IF u >= R \div 2 THEN u - R ELSE u
RECURSIVE Isqrt(_, _)
Isqrt(n, k) == IF (k + 1) * (k + 1) > n THEN k ELSE Isqrt(n, k + 1)
Diff(a, b, R) == <<Cyc(b[1] - a[1], R), Cyc(b[2] - a[2], R)>>
Steps(d) == Isqrt(d[1] * d[1] + d[2] * d[2], 0)
\* nearest cells of a + i*d/n: one, or two when exactly half way
Nearest(a, d, i, n) ==
  LET x2 == 2 * (a * n + i * d) + n       \* floor(x2 / 2n) = floor(v + 1/2)
      f == x2 \div (2 * n)
  IN IF x2 % (2 * n) = 0 THEN {f, f - 1} ELSE {f}
\* candidate cells of sample i
Sample(a, d, i, n, R) ==
  {<<x % R, y % R>> : x \in Nearest(a[1], d[1], i, n), y \in Nearest(a[2], d[2], i, n)}
InGrid(c, R) == \A k \in 1..2 : c[k] \in 0..(2 * R - 1)
LETHAL == 100
\* set of possible sums of the crossed cells' costs; -1 stands for "blocked"
RECURSIVE Sums(_, _, _, _, _, _, _)
Sums(g, a, d, i, n, R, acc) ==
  IF i >= n THEN acc
  ELSE Sums(g, a, d, i + 1, n, R,
            UNION {{IF s = -1 \/ g[c] >= LETHAL THEN -1 ELSE s + g[c] : s \in acc} : c \in Sample(a, d, i, n, R)})
Length(w, d) == w[1] * Abs(d[1]) + w[2] * Abs(d[2])          \* in 1/10
\* set of admissible costs (1/1000 units) of the transition a -> b; {-1} when forbidden
CostSet(g, a, b, R, w, wc) ==
  IF ~InGrid(b, R) THEN {-1}
  ELSE LET d == Diff(a, b, R) IN
       {IF s = -1 THEN -1 ELSE 100 * Length(w, d) + wc * s : s \in Sums(g, a, d, 0, Steps(d), R, {0})}
Estim(a, b, w) == 100 * Length(w, <<b[1] - a[1], b[2] - a[2]>>)
NoWrap(a, b, R) == Diff(a, b, R) = <<b[1] - a[1], b[2] - a[2]>>
-----------------------------------------------------------------------------
\* bounded machine: an arm making permitted transitions
CONSTANTS R, Range, W, WC
VARIABLES grid, pos, left
vars == <<grid, pos, left>>
Turn == (0..(R-1)) \X (0..(R-1))
Init == grid \in [Turn -> {0, LETHAL}] /\ pos \in (0..(2*R-1)) \X (0..(2*R-1)) /\ left = {}
Move(o) == LET nx == <<pos[1] + o[1], pos[2] + o[2]>> cs == CostSet(grid, pos, nx, R, W, WC) IN
  /\ o # <<0, 0>> /\ InGrid(nx, R) /\ \E c \in cs : c >= 0
  /\ (Steps(Diff(pos, nx, R)) > 0)
  /\ left' = {<<pos[1] % R, pos[2] % R>>} /\ pos' = nx /\ UNCHANGED grid
Next == \E o \in (-Range..Range) \X (-Range..Range) : Move(o)
Spec == Init /\ [][Next]_vars
\* every state departed from was free
Clear == \A c \in left : grid[c] < LETHAL
\* the way taken is the shortest way round each joint and samples never jump over a cell
Short == \A o \in (-Range..Range) \X (-Range..Range) :
  LET b == <<pos[1] + o[1], pos[2] + o[2]>>  d == Diff(pos, b, R)  n == Steps(d) IN
  /\ \A k \in 1..2 : Abs(d[k]) * 2 <= R + (R % 2)
  /\ \A k \in 1..2 : Abs(d[k]) <= n
  /\ InGrid(b, R) /\ NoWrap(pos, b, R) => \A c \in CostSet(grid, pos, b, R, W, WC) : c = -1 \/ c >= Estim(pos, b, W)
=============================================================================
