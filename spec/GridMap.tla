------------------------------ MODULE GridMap ------------------------------
(* Grid storage (property C02): a family of maps, each a total function from *)
(* the cells of its size to values. Every operation of the implementation's  *)
(* storage class is one action here. UNDEF marks cells whose content is not  *)
(* specified (fresh storage).                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

UNDEF == -999

Cells(sz) == (0..(sz[1]-1)) \X (0..(sz[2]-1)) \X (0..(sz[3]-1))
Box(lo, hi) == (lo[1]..hi[1]) \X (lo[2]..hi[2]) \X (lo[3]..hi[3])
Plus(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Minus(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>

VARIABLE m            \* map id -> [size |-> <<x,y,z>>, cells |-> function]

NewMap(sz) == [size |-> sz, cells |-> [p \in Cells(sz) |-> UNDEF]]
Has(i) == i \in DOMAIN m

Reset(i, sz) == m' = [j \in DOMAIN m \cup {i} |-> IF j = i THEN NewMap(sz) ELSE m[j]]
Write(i, p, v) == /\ p \in Cells(m[i].size)
                  /\ m' = [m EXCEPT ![i].cells[p] = v]
Clear(i, v) == m' = [m EXCEPT ![i].cells = [p \in DOMAIN @ |-> v]]
ClearPositive(i, v) ==
  /\ \A p \in DOMAIN m[i].cells : m[i].cells[p] # UNDEF
  /\ m' = [m EXCEPT ![i].cells = [p \in DOMAIN @ |-> IF @[p] >= 0 THEN v ELSE @[p]]]
ClearPart(i, v, lo, hi) ==
  /\ Box(lo, hi) \subseteq Cells(m[i].size)
  /\ m' = [m EXCEPT ![i].cells = [p \in DOMAIN @ |-> IF p \in Box(lo, hi) THEN v ELSE @[p]]]
\* copy the same region of map j into map i
CopyPart(i, j, lo, hi) ==
  /\ Box(lo, hi) \subseteq (Cells(m[i].size) \cap Cells(m[j].size))
  /\ m' = [m EXCEPT ![i].cells = [p \in DOMAIN @ |-> IF p \in Box(lo, hi) THEN m[j].cells[p] ELSE @[p]]]
\* copy region lo..hi of map j to the region of map i starting at d
CopyShift(i, d, j, lo, hi) ==
  LET off == Minus(d, lo) IN
  /\ \A q \in Box(lo, hi) : q \in Cells(m[j].size) /\ Plus(q, off) \in Cells(m[i].size)
  /\ m' = [m EXCEPT ![i].cells = [p \in DOMAIN @ |->
              IF Minus(p, off) \in Box(lo, hi) THEN m[j].cells[Minus(p, off)] ELSE @[p]]]
Assign(i, j) == m' = [k \in DOMAIN m \cup {i} |-> IF k = i THEN m[j] ELSE m[k]]

Valid(i, p, tol, nc) ==
  \A k \in 1..3 : IF k <= nc THEN p[k] >= tol /\ p[k] < m[i].size[k] - tol
                  ELSE p[k] >= 0 /\ p[k] < m[i].size[k]

\* matches: an observed value agrees with the specified one unless unspecified
Agrees(spec, obs) == spec = UNDEF \/ spec = obs

-----------------------------------------------------------------------------
\* Bounded instance for exhaustive checking
CONSTANTS Ids, Sizes, Vals
Init == m = [i \in {} |-> 0]
Next ==
  \/ \E i \in Ids, sz \in Sizes : Reset(i, sz)
  \/ \E i \in DOMAIN m : \E v \in Vals : Clear(i, v) \/ ClearPositive(i, v)
                          \/ \E p \in Cells(m[i].size) : Write(i, p, v)
                          \/ \E lo, hi \in Cells(m[i].size) : ClearPart(i, v, lo, hi)
  \/ \E i, j \in DOMAIN m : \/ Assign(i, j)
        \/ \E lo, hi \in Cells(m[j].size) :
              \/ CopyPart(i, j, lo, hi)
              \/ (i # j /\ \E d \in Cells(m[i].size) : CopyShift(i, d, j, lo, hi))
Spec == Init /\ [][Next]_m

TypeOK == \A i \in DOMAIN m : DOMAIN m[i].cells = Cells(m[i].size)
\* at most one map changes per step
OneMap == [][Cardinality({i \in DOMAIN m : m'[i] # m[i]}) <= 1]_m
\* values never come from nowhere
ValOK == \A i \in DOMAIN m : \A p \in DOMAIN m[i].cells : m[i].cells[p] \in Vals \cup {UNDEF}
=============================================================================
