---------------------------- MODULE DistanceMap ----------------------------
(* C08. Distance-to-goal map of the 3D planner.                              *)
(* 1. Semantics: cells, jumps of up to J cells sampled along the line, cost   *)
(*    of a jump, and what it means for a table of distances to be right       *)
(*    (Bellman consistency; with positive costs this determines the table).   *)
(* 2. The incremental algorithm (erase what may have become wrong, search     *)
(*    again from the frontier, stop beyond the start plus an overshoot),      *)
(*    model-checked to keep the table right over every history of changes.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS J, Over, Wd, Ht, Vals, Maps, Goals, Starts, ReseedR, ExpandR, EightConn, AllSeeds, MaxOps
Inf == 1000000000
Abs(x) == IF x < 0 THEN 0 - x ELSE x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* ------------------------------------------------------------- semantics
Sq == <<10000, 14142, 0, 20000, 22361, 0, 0, 28284, 30000, 31623, 0, 0, 36056, 0, 0, 40000>>   \* 10000*sqrt(i) where i is a sum of two squares
SqLen(d) == d[1] * d[1] + d[2] * d[2]
ISqrt(n) == MinS({i \in 0..4 : (i + 1) * (i + 1) > n})
\* nearest integer to a/b (b > 0), ties away from zero
Rnd(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE 0 - ((b - 2 * a) \div (2 * b))
JumpsOf(j) == {d \in (0 - j..j) \X (0 - j..j) : SqLen(d) > 0 /\ SqLen(d) <= j * j}
\* cells looked at, relative to the goal-side cell of the jump (the far end is not one of them)
Line(d) == LET n == ISqrt(SqLen(d)) IN {<<Rnd(i * d[1], n), Rnd(i * d[2], n)>> : i \in 0..(n - 1)}
\* p: ec (1/10000 per cell), res (1/1000), wc, wh (1/10)
JumpCost(p, d, sc, sh) ==
  LET l == Sq[SqLen(d)]
      f == l \div ISqrt(SqLen(d))
  IN (p.ec * l) \div 10000 + (((f * (sc * p.wc + sh * p.wh)) \div 1000) * p.res) \div 1000
\* a jump with everything that does not depend on the map worked out
Info(p, d) == [d |-> d, line |-> Line(d), base |-> (p.ec * Sq[SqLen(d)]) \div 10000, f |-> Sq[SqLen(d)] \div ISqrt(SqLen(d))]
Extra(p, i, sc, sh) == (((i.f * (sc * p.wc + sh * p.wh)) \div 1000) * p.res) \div 1000
RECURSIVE SumOver(_, _)
SumOver(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F(x) + SumOver(F, S \ {x})
\* cost of jump i from goal-side cell u (Inf when it passes a lethal cell); C(x,y), R(x,y): costs and remembered costs
Cost(p, i, u, C(_, _), R(_, _)) ==
  IF \E q \in i.line : C(u[1] + q[1], u[2] + q[2]) > 99 THEN Inf
  ELSE LET sc(q) == C(u[1] + q[1], u[2] + q[2])
           sh(q) == R(u[1] + q[1], u[2] + q[2])
       IN i.base + Extra(p, i, SumOver(sc, i.line), IF p.wh = 0 THEN 0 ELSE SumOver(sh, i.line))
InBox(w, h, c) == c[1] >= 0 /\ c[1] < w /\ c[2] >= 0 /\ c[2] < h
\* the stored distance of v is right with respect to its neighbours, as far as they matter (distance <= lim);
\* the goal counts as half a cell closer than it is, so its successors may be up to half a cell low
CellRight(p, w, h, infos, G(_, _), C(_, _), R(_, _), goal, lim, v, tol) ==
  LET gv == G(v[1], v[2])
      t == tol + (IF gv >= Inf THEN 0 ELSE gv \div 20000)
      Pre == {i \in infos : InBox(w, h, <<v[1] - i.d[1], v[2] - i.d[2]>>)}
      U(i) == <<v[1] - i.d[1], v[2] - i.d[2]>>
      GU(i) == G(v[1] - i.d[1], v[2] - i.d[2])
  IN IF v = goal THEN gv = 0
     ELSE /\ \* nothing that matters offers a shorter way
             \A i \in Pre : (GU(i) < lim - t /\ GU(i) + i.base < gv - t) =>
                LET k == Cost(p, i, U(i), C, R) IN k >= Inf \/ gv <= GU(i) + k + t
          /\ \* a distance that matters is earned through some neighbour
             gv >= Inf \/ gv > lim - t \/
             \E i \in Pre : GU(i) < Inf /\ GU(i) <= gv /\
                LET k == Cost(p, i, U(i), C, R) IN
                k < Inf /\ gv + t >= GU(i) + k - (IF U(i) = goal THEN p.ec \div 2 ELSE 0)
TableRight(p, w, h, infos, G(_, _), C(_, _), R(_, _), goal, start, over, tol) ==
  LET gs == IF start = goal THEN 0 - p.ec \div 2 ELSE G(start[1], start[2])
      lim == IF gs >= Inf THEN Inf ELSE gs + over
  IN \A x \in 0..(w - 1) : \A y \in 0..(h - 1) : CellRight(p, w, h, infos, G, C, R, goal, lim, <<x, y>>, tol)
\* ------------------------------------------------------------- the incremental algorithm on small maps
VARIABLES cmap, goal, start, g, edges, ops
vars == <<cmap, goal, start, g, edges, ops>>
Cells == (0..(Wd - 1)) \X (0..(Ht - 1))
P == [ec |-> 10000, res |-> 1000, wc |-> 10, wh |-> 0]
Infos == {Info(P, d) : d \in JumpsOf(J)}
CostM(m, i, u) == LET C(x, y) == m[<<x, y>>] R(x, y) == 0 IN Cost(P, i, u, C, R)
Init0 == [c \in Cells |-> Inf]
\* label-correcting search, smallest first; returns the table and the cells to look at again later
RECURSIVE Fill(_, _, _, _, _)
Fill(m, s, t, open, ed) ==
  IF open = {} THEN [g |-> t, ed |-> ed]
  ELSE LET e == CHOOSE e \in open : \A f \in open : e[2] <= f[2]
           u == e[1]
           rest == open \ {e}
       IN IF e[2] > t[u] THEN Fill(m, s, t, rest, ed)
          ELSE IF e[2] - Over > t[s] THEN Fill(m, s, t, rest, ed \cup {u})
          ELSE LET Out == {i \in Infos : <<u[1] + i.d[1], u[2] + i.d[2]>> \in Cells}
                   K == [i \in Out |-> CostM(m, i, u)]
                   blocked == \E i \in Out : K[i] >= Inf /\ t[<<u[1] + i.d[1], u[2] + i.d[2]>>] > t[u] + i.base
                   Better == {i \in Out : K[i] < Inf /\ t[<<u[1] + i.d[1], u[2] + i.d[2]>>] > e[2] + K[i] /\ t[<<u[1] + i.d[1], u[2] + i.d[2]>>] > t[u] + i.base}
                   New == [c \in Cells |-> LET B == {i \in Better : <<u[1] + i.d[1], u[2] + i.d[2]>> = c}
                                           IN IF B = {} THEN t[c] ELSE LET i == CHOOSE i \in B : TRUE IN e[2] + K[i]]
               IN Fill(m, s, New, rest \cup {<<c, New[c]>> : c \in {c \in Cells : New[c] # t[c]}}, IF blocked THEN ed \cup {u} ELSE ed)
Create(m, s, e) ==
  LET h == P.ec \div 2
      r == Fill(m, s, [Init0 EXCEPT ![e] = 0 - h], {<<e, 0 - h>>}, {})
  IN [r EXCEPT !.g[e] = 0]
RECURSIVE Erase(_, _, _, _)
Erase(t, todo, cmin, ed) ==
  IF todo = {} THEN [g |-> t, ed |-> ed]
  ELSE LET u == CHOOSE u \in todo : TRUE
           rest == todo \ {u}
       IN IF t[u] >= Inf THEN Erase(t, rest, cmin, ed)
          ELSE LET t2 == [t EXCEPT ![u] = Inf]
                   Near(r) == {c \in Cells : Max2(Abs(c[1] - u[1]), Abs(c[2] - u[2])) <= r}
                   Adj == {c \in Near(1) : c # u /\ (EightConn \/ c[1] = u[1] \/ c[2] = u[2])}
                   keep == {c \in Near(ReseedR) : t2[c] < cmin /\ (ReseedR > 1 \/ c \in Adj)}
                   more == {c \in Adj : t2[c] < Inf /\ t2[c] >= cmin}
               IN Erase(t2, rest \cup more, cmin, (ed \cup keep) \ more)
Update(m, s, e, t, ed, rect) ==
  LET zone == {c \in Cells : rect # {} /\ c[1] >= MinS({r[1] : r \in rect}) - ExpandR /\ c[1] <= 0 - MinS({0 - r[1] : r \in rect}) + ExpandR
                              /\ c[2] >= MinS({r[2] : r \in rect}) - ExpandR /\ c[2] <= 0 - MinS({0 - r[2] : r \in rect}) + ExpandR}
      cmin == IF zone = {} THEN Inf ELSE MinS({t[c] : c \in zone})
  IN IF cmin = 0 THEN Create(m, s, e)
     ELSE LET seeds == (IF cmin < Inf THEN (IF AllSeeds THEN {c \in zone : t[c] < Inf} ELSE {CHOOSE c \in zone : t[c] = cmin}) ELSE {}) \cup (IF t[s] > cmin THEN {s} ELSE {})
              er == Erase(t, seeds, cmin, ed)
              open == IF er.ed = {} THEN {<<e, 0 - (P.ec \div 2)>>} ELSE {<<c, er.g[c]>> : c \in er.ed}
          IN Fill(m, s, er.g, open, {})
\* maps to start from: given as rows of cells, or every map when none is given
FromRows(rows) == [c \in Cells |-> rows[c[2] + 1][c[1] + 1]]
Init == /\ cmap \in (IF Maps = {} THEN [Cells -> Vals] ELSE {FromRows(r) : r \in Maps}) /\ goal \in Goals /\ start \in Starts /\ ops = 0
        /\ LET r == Create(cmap, start, goal) IN g = r.g /\ edges = r.ed
\* one or two cells change (or none), the robot may have moved
Change == /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED goal
          /\ \E s \in Starts, c \in Cells, c2 \in Cells, v \in Vals, none \in BOOLEAN :
               LET m == IF none THEN cmap ELSE [cmap EXCEPT ![c] = v, ![c2] = v]
                   r == Update(m, s, goal, g, edges, IF none THEN {} ELSE {c, c2})
               IN /\ (none => s # start /\ c = <<0, 0>> /\ c2 = c /\ v = 0)
                  /\ (~none => cmap[c] # v /\ (c2 = c \/ (Maps # {} /\ cmap[c2] # v /\ c[1] < c2[1] /\ c[2] = c2[2])))
                  /\ cmap' = m /\ start' = s /\ g' = r.g /\ edges' = r.ed
Spec == Init /\ [][Change]_vars
Right == LET G(x, y) == g[<<x, y>>] C(x, y) == cmap[<<x, y>>] R(x, y) == 0 IN
         TableRight(P, Wd, Ht, Infos, G, C, R, goal, start, Over, 2)
\* lethal cells are never passed, walls enclose: a cell fenced off by lethal jumps has no distance
GoalZero == g[goal] = 0
\* recomputation agrees up to half a cell
SameAsNew == LET n == Create(cmap, start, goal).g IN
  \A c \in Cells : (n[start] < Inf => n[c] <= n[start] + Over - P.ec \div 2 - 4) =>
     IF n[c] >= Inf \/ g[c] >= Inf THEN n[c] = g[c] ELSE Abs(n[c] - g[c]) <= P.ec \div 2 + 4
=============================================================================
