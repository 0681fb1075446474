----------------------------- MODULE SpeedLimit -----------------------------
(* Velocity/acceleration limiter and angle helpers (property C20). Velocities *)
(* are integers (1/64 m/s in the traces); step = acceleration * period.        *)
EXTENDS Integers, Sequences, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clip(v, m) == IF v > m THEN m ELSE IF v < -m THEN -m ELSE v
Limited(prev, v, vmax, step) == Max(prev - step, Min(prev + step, Clip(v, vmax)))
VARIABLE cur
Set(v, vmax, step) == cur' = Limited(cur, v, vmax, step)
Increment(v, vmax, step) == Set(cur + v, vmax, step)
Reset == cur' = 0
-----------------------------------------------------------------------------
CONSTANTS Vels, Limits, StepMax
VARIABLE last            \* [v, vmax, step, prev] of the latest command
Init == cur = 0 /\ last = [v |-> 0, vmax |-> 0, step |-> 0, prev |-> 0]
Next == \E v \in Vels, m \in Limits, s \in 0..StepMax :
          /\ (Set(v, m, s) \/ Increment(v, m, s))
          /\ last' = [v |-> v, vmax |-> m, step |-> s, prev |-> cur]
Spec == Init /\ [][Next]_<<cur, last>>
StepKept == Abs(cur - last.prev) <= last.step
\* beyond the speed limit only while braking towards it as hard as allowed
Capped == Abs(cur) <= last.vmax \/ (Abs(cur) = Abs(last.prev) - last.step /\ cur * last.prev >= 0)
\* once within the limit, never out of it under the same limit
ClipOK == \A v \in Vels, m \in Limits : Abs(Clip(v, m)) <= Abs(v) /\ Abs(Clip(v, m)) <= m /\ Clip(v, m) * v >= 0
=============================================================================
