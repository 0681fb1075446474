------------------------------- MODULE Accum -------------------------------
(* Accumulated clouds with a hold time, and the local obstacle map made from them.
   A buffer is a sequence of clouds in arrival order; a cloud has a stamp and points in map coordinates. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Stamps, Holds, MaxLen
VARIABLES buf, hold, newest
vars == <<buf, hold, newest>>
Young(e, stamp, h) == e.stamp + h >= stamp
Push(q, e, h) == Append(SelectSeq(q, LAMBDA x : Young(x, e.stamp, h)), e)
Init == buf = <<>> /\ hold \in Holds /\ newest = 0
DoPush(s) == /\ Len(buf) < MaxLen
             /\ buf' = Push(buf, [stamp |-> s, id |-> newest + 1], hold)
             /\ newest' = newest + 1
             /\ UNCHANGED hold
Clear == buf' = <<>> /\ UNCHANGED <<hold, newest>>
Reset == \E h \in Holds : hold' = h /\ buf' = <<>> /\ UNCHANGED newest
Next == (\E s \in Stamps : DoPush(s)) \/ Clear \/ Reset
Spec == Init /\ [][newest < MaxLen /\ Next]_vars
\* after a push: the new cloud is last, arrival order is kept, nothing is older than the hold time, nothing young was dropped
LastIsNew == buf # <<>> => buf[Len(buf)].id = newest \/ newest > buf[Len(buf)].id
Ordered == \A i, j \in 1..Len(buf) : i < j => buf[i].id < buf[j].id
NoneOld == \A i \in 1..Len(buf) : buf[i].stamp + hold >= buf[Len(buf)].stamp
Complete == [][newest' = newest + 1 => \A i \in 1..Len(buf) : Young(buf[i], buf'[Len(buf')].stamp, hold) <=> \E j \in 1..Len(buf') : buf'[j] = buf[i]]_vars
------------------------------------------------------------------------------
\* maps: window origin <<ox, oy>> and points in 1/64 m, resolution res in 1/64 m
Hit(ps, z0, z1, rz, ox, oy, res, x, y) ==
  \E i \in 1..Len(ps) : ps[i][3] - rz >= z0 /\ ps[i][3] - rz <= z1 /\ (ps[i][1] - ox) \div res = x /\ (ps[i][2] - oy) \div res = y
Local(ps, z0, z1, rz, ox, oy, res, w) == [k \in 1..(w * w) |-> IF Hit(ps, z0, z1, rz, ox, oy, res, (k - 1) % w, (k - 1) \div w) THEN 100 ELSE 0]
RECURSIVE Points(_, _)
Points(q, i) == IF i > Len(q) THEN <<>> ELSE q[i].pts \o Points(q, i + 1)
=============================================================================
