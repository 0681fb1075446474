----------------------------- MODULE CyclicVec -----------------------------
(* Vectors whose leading nc coordinates are plane coordinates and whose other *)
(* coordinates are cyclic (property C03). State: a file of registers; every  *)
(* operation of the vector class is an action on it.                         *)
EXTENDS Integers, Sequences, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
\* the unique value congruent to v modulo r in lo .. lo+r-1  (r > 0); TLA+'s % is already non-negative
InRange(v, r, lo) == lo + ((v - lo) % r)
Signed(v, r) == InRange(v, r, (r \div 2) - r)
Unsigned(v, r) == InRange(v, r, 0)

VARIABLES reg, dim, nc
vars == <<reg, dim, nc>>

MapV(F(_)) == [k \in 1..dim |-> F(k)]
Set(r, v) == reg' = [reg EXCEPT ![r] = v] /\ UNCHANGED <<dim, nc>>
Add(d, a, b) == Set(d, MapV(LAMBDA k : reg[a][k] + reg[b][k]))
Sub(d, a, b) == Set(d, MapV(LAMBDA k : reg[a][k] - reg[b][k]))
Mul(d, a, b) == Set(d, MapV(LAMBDA k : reg[a][k] * reg[b][k]))
Cycle(r, res) == Set(r, MapV(LAMBDA k : IF k <= nc THEN reg[r][k] ELSE Signed(reg[r][k], res[k])))
CycleU(r, res) == Set(r, MapV(LAMBDA k : IF k <= nc THEN reg[r][k] ELSE Unsigned(reg[r][k], res[k])))
Exceeded(r, lim) == \E k \in 1..nc : reg[r][k] < 0 \/ reg[r][k] >= lim[k]
RECURSIVE SumSq(_, _)
SumSq(v, n) == IF n = 0 THEN 0 ELSE v[n] * v[n] + SumSq(v, n - 1)
SqLen(r) == SumSq(reg[r], nc)
Cross(a, b) == reg[a][1] * reg[b][2] - reg[a][2] * reg[b][1]
Dot(a, b) == reg[a][1] * reg[b][1] + reg[a][2] * reg[b][2]
RoundQ(q) == IF q >= 0 THEN (q + 2) \div 4 ELSE -((-q + 2) \div 4)   \* q quarters, half away from zero

-----------------------------------------------------------------------------
CONSTANTS Lim, MaxRes
Init == reg = [r \in 1..2 |-> <<0, 0>>] /\ dim = 2 /\ nc \in {0, 1, 2}
Next == \/ \E a, b \in -Lim..Lim, r \in 1..2 : Set(r, <<a, b>>)
        \/ \E x, y \in 1..MaxRes, r \in 1..2 : Cycle(r, <<x, y>>) \/ CycleU(r, <<x, y>>)
        \/ (Sub(1, 1, 2) /\ \A k \in 1..2 : Abs(reg'[1][k]) <= Lim)
Spec == Init /\ [][Next]_vars
\* declarative characterisation of the reductions
Unique == \A v \in -3*MaxRes..3*MaxRes, r \in 1..MaxRes :
   /\ Signed(v, r) \in ((r \div 2) - r)..((r \div 2) - 1) /\ (Signed(v, r) - v) % r = 0
   /\ Unsigned(v, r) \in 0..(r - 1) /\ (Unsigned(v, r) - v) % r = 0
   /\ Unsigned(Signed(v, r), r) = Unsigned(v, r) /\ Signed(Unsigned(v, r), r) = Signed(v, r)
ASSUME Unique
Inverse == \A k \in 1..2 : (reg[1][k] - reg[2][k]) + reg[2][k] = reg[1][k]
PlaneKept == [][\A r \in 1..2 : \A k \in 1..nc : reg'[r][k] = reg[r][k] \/ \E a \in -2*Lim..2*Lim : reg'[r][k] = a]_vars
=============================================================================
