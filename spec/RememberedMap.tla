---------------------------- MODULE RememberedMap ----------------------------
(* Remembered obstacle map (property C04). The belief of a cell is its        *)
(* log-odds in units of ln(3)/4, so that the legal range [1/9, 9] of the odds *)
(* is -8..8 exactly. `out` is the written-out percentage map.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES size, bel, out
vars == <<size, bel, out>>
MINL == -8
MAXL == 8
Clamp(v) == IF v < MINL THEN MINL ELSE IF v > MAXL THEN MAXL ELSE v
\* rounded percentage of the probability normalised from [0.1, 0.9]
Pct(k) == <<0, 3, 8, 13, 19, 26, 33, 41, 50, 59, 67, 74, 81, 87, 92, 97, 100>>[k + 9]
CellsOf(sz) == (0..(sz[1]-1)) \X (0..(sz[2]-1))
Sq(p, c) == (p[1]-c[1])*(p[1]-c[1]) + (p[2]-c[2])*(p[2]-c[2])
LETHAL == 100
\* evidence the observation obs gives for cell p
Evid(p, c, cost, hit, miss, rmin, rmax) ==
  IF Sq(p, c) > rmax * rmax \/ cost < 0 THEN 0
  ELSE IF cost = LETHAL THEN (IF Sq(p, c) >= rmin * rmin THEN hit ELSE 0)
  ELSE miss
Forget(sz) == /\ size' = sz
              /\ bel' = [p \in CellsOf(sz) |-> MINL]
              /\ out' = [p \in CellsOf(sz) |-> 0]
Reset(sz) == Forget(sz)
Clear == Forget(size)
Remember(c, obs, hit, miss, rmin, rmax) ==
  /\ bel' = [p \in DOMAIN bel |-> Clamp(bel[p] + Evid(p, c, obs[p], hit, miss, rmin, rmax))]
  /\ UNCHANGED <<size, out>>
WriteOut == out' = [p \in DOMAIN bel |-> Pct(bel[p])] /\ UNCHANGED <<size, bel>>
-----------------------------------------------------------------------------
CONSTANTS Sizes, Costs, Evidence, Ranges
Init == size = <<1, 1>> /\ bel = [p \in CellsOf(<<1,1>>) |-> MINL] /\ out = [p \in CellsOf(<<1,1>>) |-> 0]
Next == \/ \E sz \in Sizes : Reset(sz)
        \/ Clear
        \/ WriteOut
        \/ \E c \in (-1..2) \X (-1..1), h \in Evidence, ms \in Evidence, r1 \in Ranges, r2 \in Ranges :
             \E obs \in [DOMAIN bel -> Costs] : h >= 0 /\ ms <= 0 /\ Remember(c, obs, h, ms, r1, r2)
Spec == Init /\ [][Next]_vars
Bounded == \A p \in DOMAIN bel : bel[p] \in MINL..MAXL /\ out[p] \in 0..100
Domains == DOMAIN bel = CellsOf(size) /\ DOMAIN out = CellsOf(size)
\* belief and its percentage move the same way
Monotone == \A j, k \in MINL..MAXL : j <= k => Pct(j) <= Pct(k)
\* writing out is the only thing besides forgetting that changes the output
OutOnlyByWrite == [][(out' # out) => (bel' = bel \/ \A p \in DOMAIN bel' : bel'[p] = MINL)]_vars
=============================================================================
