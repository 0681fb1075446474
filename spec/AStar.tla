------------------------------- MODULE AStar -------------------------------
(* Best-first grid search of the planners (property C01), at the grain of the *)
(* implementation: a batch of N open entries is fetched (Fetch), every fetched *)
(* cell is evaluated against one snapshot of the cost table (Evaluate), and   *)
(* each worker merges its results in its own critical section, in any order   *)
(* (Merge). A cell that improves nothing is closed for good (value -1).       *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Nodes, Goal, StartSets, EdgeSets, MaxH, Batches
INF == 10000
NoEdge == 0                      \* cost 0 encodes "not permitted"

VARIABLES cost, h, starts, n,    \* the problem: edge costs, estimate, start cells, batch size
          open, g, par, work, pend, phase

vars == <<cost, h, starts, n, open, g, par, work, pend, phase>>

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* ---- declarative meaning -------------------------------------------------
RECURSIVE Relax(_, _)
Relax(d, k) == IF k = 0 THEN d
  ELSE Relax([v \in Nodes |-> Min({d[v]} \cup {d[u] + cost[<<u, v>>] : u \in {u \in Nodes : cost[<<u, v>>] # NoEdge /\ d[u] < INF}})], k - 1)
Opt == Relax([v \in Nodes |-> IF v \in starts THEN 0 ELSE INF], Cardinality(Nodes))
Reachable == Opt[Goal] < INF

Consistent(c, e) == e[Goal] = 0 /\ \A u, v \in Nodes : c[<<u, v>>] # NoEdge => e[u] <= c[<<u, v>>] + e[v]

\* ---- algorithm -----------------------------------------------------------
Init ==
  /\ cost \in {[p \in Nodes \X Nodes |-> IF p \in DOMAIN e THEN e[p] ELSE NoEdge] : e \in EdgeSets}
  /\ h \in [Nodes -> 0..MaxH] /\ Consistent(cost, h)
  /\ starts \in StartSets /\ n \in Batches
  /\ open = {<<h[s], 0, s>> : s \in starts}
  /\ g = [v \in Nodes |-> IF v \in starts THEN 0 ELSE INF]
  /\ par = [v \in Nodes |-> 0]
  /\ work = {} /\ pend = {} /\ phase = "fetch"

\* fetch entries with the smallest f until the batch is full; any tie order
Fetch ==
  /\ phase = "fetch"
  /\ \/ /\ open # {} /\ Cardinality(work) < n
        /\ \E e \in {x \in open : \A y \in open : x[1] <= y[1]} :
             /\ open' = open \ {e}
             /\ IF e[3] = Goal THEN phase' = "found" /\ UNCHANGED work
                ELSE work' = work \cup {e} /\ UNCHANGED phase
     \/ /\ open = {} \/ Cardinality(work) = n
        /\ phase' = IF work = {} THEN "failed" ELSE "eval"
        /\ UNCHANGED <<open, work>>
  /\ UNCHANGED <<cost, h, starts, n, g, par, pend>>

\* improvements seen from fetched entry e in the current table
Improve(e) ==
  LET p == e[3] IN
  {<<p, v, e[2] + cost[<<p, v>>]>> :
     v \in {v \in Nodes : cost[<<p, v>>] # NoEdge /\ ~(g[v] < g[p]) /\ g[v] > e[2] + cost[<<p, v>>]}}
Evaluate ==
  /\ phase = "eval"
  /\ LET live == {e \in work : ~(e[2] > g[e[3]])} IN
     pend' = {[ups |-> Improve(e), dont |-> IF Improve(e) = {} THEN {e[3]} ELSE {}] : e \in live}
  /\ work' = {} /\ phase' = "merge"
  /\ UNCHANGED <<cost, h, starts, n, open, g, par>>

\* one worker's critical section
Merge ==
  /\ phase = "merge"
  /\ IF pend = {} THEN phase' = "fetch" /\ UNCHANGED <<open, g, par, pend>>
     ELSE \E w \in pend :
       LET acc == {u \in w.ups : g[u[2]] > u[3]} IN
       /\ pend' = pend \ {w}
       /\ open' = open \cup {<<u[3] + h[u[2]], u[3], u[2]>> : u \in acc}
       /\ par' = [v \in Nodes |-> IF \E u \in acc : u[2] = v THEN (CHOOSE u \in acc : u[2] = v)[1] ELSE par[v]]
       /\ g' = [v \in Nodes |-> IF v \in w.dont THEN -1
                                ELSE IF \E u \in acc : u[2] = v THEN (CHOOSE u \in acc : u[2] = v)[3] ELSE g[v]]
       /\ UNCHANGED phase
  /\ UNCHANGED <<cost, h, starts, n, work>>

Next == Fetch \/ Evaluate \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- path reconstruction ---------------------------------------------------
RECURSIVE Back(_, _)
Back(v, k) == IF v \in starts THEN <<v>>
              ELSE IF k = 0 \/ par[v] = 0 THEN <<>>
              ELSE Append(Back(par[v], k - 1), v)
Path == Back(Goal, Cardinality(Nodes))
RECURSIVE PathCost(_)
PathCost(p) == IF Len(p) < 2 THEN 0 ELSE cost[<<p[1], p[2]>>] + PathCost(Tail(p))

Sound == phase = "found" =>
   /\ Path # <<>> /\ Path[1] \in starts /\ Path[Len(Path)] = Goal
   /\ \A i \in 1..(Len(Path) - 1) : cost[<<Path[i], Path[i+1]>>] # NoEdge
Complete == phase = "failed" => ~Reachable
Optimal == (phase = "found" /\ n = 1) => PathCost(Path) = Opt[Goal]
Terminates == <>(phase \in {"found", "failed"})
=============================================================================
