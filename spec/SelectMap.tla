------------------------------ MODULE SelectMap ------------------------------
\* Floor selection: the output (map and height) follows the selected floor of the latest array; a selection without a
\* floor keeps the previous output. A floor is [id, z].
EXTENDS Integers, Sequences
CONSTANTS Arrays, Floors, MaxSteps
VARIABLES s
vars == <<s>>
None == [id |-> 0 - 1, z |-> 0]
Init == s = [maps |-> <<>>, floor |-> 0, map |-> None, tf |-> None, n |-> 0]
Valid(m, f) == f >= 0 /\ f < Len(m)
Want == IF Valid(s.maps, s.floor) THEN s.maps[s.floor + 1] ELSE s.map
Maps(m) == s' = [s EXCEPT !.maps = m, !.n = @ + 1]
Floor(f) == s' = [s EXCEPT !.floor = f, !.n = @ + 1]
\* output happens some time after the inputs, and only with the selected floor
Publish == Valid(s.maps, s.floor) /\ s' = [s EXCEPT !.map = s.maps[s.floor + 1]]
Broadcast == s' = [s EXCEPT !.tf = s.map]
Settled == s.map = Want /\ s.tf.z = s.map.z
Next == (s.n < MaxSteps /\ \E m \in Arrays : Maps(m)) \/ (s.n < MaxSteps /\ \E f \in Floors : Floor(f)) \/ Publish \/ Broadcast
Spec == Init /\ [][Next]_vars
\* safety: only maps of a received array, selected at that time; liveness: output settles
OutputIsSelected == [][s'.map # s.map => (Valid(s.maps, s.floor) /\ s'.map = s.maps[s.floor + 1])]_vars
KeepsWhenOutOfRange == [][~Valid(s.maps, s.floor) => s'.map = s.map]_vars
FairSpec == Spec /\ WF_vars(Publish) /\ WF_vars(Broadcast)
Settles == <>[]Settled
=============================================================================
