----------------------------- MODULE AStarTrace -----------------------------
(* Checks recorded searches of the real code against the declarative meaning  *)
(* of AStar: reachability, permitted moves and minimum cost on the recorded    *)
(* grid problem (the problem is part of the trace).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
INF == 1000000
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pr, succ, opt      \* problem, successor table and optimal costs per start set
T == Trace[l]
Sz(k) == pr.size[k]
NCells(p) == p.size[1] * p.size[2] * p.size[3]
Idx(p, c) == (c[1] * p.size[2] + c[2]) * p.size[3] + c[3] + 1
Cell(p, i) == LET j == i - 1 IN <<j \div (p.size[2] * p.size[3]), (j \div p.size[3]) % p.size[2], j % p.size[3]>>
Wrap(p, c) == [k \in 1..3 |-> IF k <= p.nc THEN c[k] ELSE c[k] % p.size[k]]
InMap(p, c) == \A k \in 1..3 : c[k] >= 0 /\ c[k] < p.size[k]
\* moves of problem p: per cell, the set of <<next index, cost>>
Moves(p) == [i \in 1..NCells(p) |->
   LET c == Cell(p, i) IN
   { <<Idx(p, Wrap(p, <<c[1]+p.offs[o][1], c[2]+p.offs[o][2], c[3]+p.offs[o][3]>>)), p.costs[i][o]>> :
       o \in {o \in 1..Len(p.offs) : p.costs[i][o] >= 0 /\ p.costs[i][o] < INF
                 /\ InMap(p, Wrap(p, <<c[1]+p.offs[o][1], c[2]+p.offs[o][2], c[3]+p.offs[o][3]>>))} }]
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
\* shortest costs by repeated forward relaxation from the frontier
RECURSIVE Sp(_, _, _)
Sp(d, fr, sc) ==
  IF fr = {} THEN d
  ELSE LET cand == UNION {{<<m[1], d[i] + m[2]>> : m \in sc[i]} : i \in fr}
           tgt == {x[1] : x \in {y \in cand : y[2] < d[y[1]]}}
           d2 == [i \in DOMAIN d |-> IF i \in tgt THEN MinS({x[2] : x \in {y \in cand : y[1] = i}}) ELSE d[i]]
       IN Sp(d2, tgt, sc)
Dist(ss, sc, n) == Sp([i \in 1..n |-> IF i \in ss THEN 0 ELSE INF], ss, sc)
\* cost of a path (sequence of indices) or -1 if a move is not permitted
RECURSIVE PCost(_, _, _)
PCost(q, i, acc) ==
  IF i >= Len(q) THEN acc
  ELSE LET ms == {m[2] : m \in {m \in succ[q[i]] : m[1] = q[i+1]}}
       IN IF ms = {} THEN -1 ELSE PCost(q, i + 1, acc + MinS(ms))
Ixs(cs) == {Idx(pr, Wrap(pr, cs[k])) : k \in 1..Len(cs)}
PathIx == [k \in 1..Len(T.path) |-> Idx(pr, T.path[k])]
ChainOK(ss) == /\ \A k \in 1..Len(T.path) : InMap(pr, T.path[k])
               /\ Len(T.path) >= 1 /\ PathIx[1] \in ss /\ PCost(PathIx, 1, 0) >= 0
SearchOK ==
  LET ss == Ixs(T.starts)
      gi == Idx(pr, Wrap(pr, T.goal))
      d == Dist(ss, succ, NCells(pr))
      trivial == \E k \in 1..Len(T.starts) : T.starts[k] = T.goal
  IN IF T.starts = <<>> \/ trivial THEN ~T.ok
     ELSE /\ IF T.ok
             THEN /\ ChainOK(ss)
                  /\ IF T.leave = 0 THEN PathIx[Len(PathIx)] = gi
                     ELSE PathIx[Len(PathIx)] = gi \/ pr.h[PathIx[Len(PathIx)]] < T.leave
                  /\ (T.leave = 0 => d[gi] < INF)
                  /\ (T.leave = 0 /\ T.batch = 1 /\ T.eqcost => PCost(PathIx, 1, 0) = d[gi])
             ELSE /\ (d[gi] = INF \/ T.aborted)
                  /\ (T.best => ChainOK(ss))
          \* every progress report shows a permitted chain from a start
          /\ \A k \in 1..Len(T.progress) :
               LET q == [x \in 1..Len(T.progress[k]) |-> Idx(pr, T.progress[k][x])]
               IN Len(q) >= 1 /\ q[1] \in ss /\ PCost(q, 1, 0) >= 0
Step ==
  CASE T.op = "begin" -> pr' = T /\ succ' = Moves(T) /\ UNCHANGED opt
    [] T.op = "search" -> SearchOK /\ UNCHANGED <<pr, succ, opt>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ pr = [size |-> <<1, 1, 1>>] /\ succ = <<>> /\ opt = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_<<l, pr, succ, opt>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1 IN
  PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
