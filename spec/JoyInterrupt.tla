---------------------------- MODULE JoyInterrupt ----------------------------
(* Joystick override of a velocity command (property C17). Velocities are     *)
(* 6-tuples of integers; times in microseconds.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, held, last, cmd
  \* held: override button seen pressed; last: time of that message; cmd: latest autonomous command
vars == <<cfg, held, last, cmd>>
Zero6 == <<0, 0, 0, 0, 0, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
Start(c) == cfg' = c /\ held' = FALSE /\ last' = 0 /\ cmd' = Zero6
Overriding(t) == held /\ t - last <= cfg.timeout
HasButton(b) == cfg.button >= 0 /\ cfg.button < Len(b)
Axis(a, i) == IF i < 0 \/ i >= Len(a) THEN 0 ELSE a[i + 1]
Pick(a, i, j) == IF Abs(Axis(a, j)) > Abs(Axis(a, i)) THEN Axis(a, j) ELSE Axis(a, i)
\* 1/4 (axis) * 1/16 (ratio) * 1/16 (speed) = 1/1024; reported in 1/4096
JoyTwist(b, a) ==
  LET high == cfg.high >= 0 /\ cfg.high < Len(b) /\ b[cfg.high + 1] # 0
      rl == IF high THEN cfg.ratio[1] ELSE 16
      ra == IF high THEN cfg.ratio[2] ELSE 16
  IN <<4 * Pick(a, cfg.ax[1], cfg.ax[2]) * rl * cfg.vel[1], 4 * Pick(a, cfg.ax[3], cfg.ax[4]) * rl * cfg.vel[2], 0,
       0, 0, 4 * Pick(a, cfg.ax[5], cfg.ax[6]) * ra * cfg.vel[3]>>
\* what may be published on a joystick message
JoyOut(t, b, a) ==
  IF ~HasButton(b) THEN {<<>>}                                 \* never moves the robot
  ELSE IF b[cfg.button + 1] # 0 THEN {<<JoyTwist(b, a)>>}       \* exclusive source
  ELSE IF Overriding(t) THEN {<<cmd>>}                          \* released: handed back at once
  ELSE IF held THEN {<<>>, <<cmd>>}                             \* released after it had expired
  ELSE {<<>>}
Joy(t, b, a, out) ==
  /\ out \in JoyOut(t, b, a)
  /\ held' = (HasButton(b) /\ b[cfg.button + 1] # 0)
  /\ last' = IF held' THEN t ELSE last
  /\ UNCHANGED <<cfg, cmd>>
In(t, v, out, st) ==
  /\ cmd' = v
  /\ out = IF Overriding(t) THEN <<>> ELSE <<v>>
  /\ st = <<IF Overriding(t) THEN 0 ELSE 1>>
  /\ UNCHANGED <<cfg, held, last>>
-----------------------------------------------------------------------------
CONSTANTS MaxT, Timeout, MaxN
VARIABLES now, ev, hist, n     \* ev: latest event and output; hist: joystick history
mvars == <<cfg, held, last, cmd, now, ev, hist, n>>
Axs == {<<>>, <<4, -2>>, <<0, 3, 5>>}
Btn == {<<>>, <<0, 0>>, <<1, 0>>, <<1, 1>>, <<1>>}
Init == /\ cfg = [timeout |-> Timeout, button |-> 0, high |-> 1, ax |-> <<1, 2, -1, -1, 0, -1>>, vel |-> <<8, 0, 16>>, ratio |-> <<32, 16>>]
        /\ held = FALSE /\ last = 0 /\ cmd = Zero6 /\ now = 0 /\ ev = [k |-> "none"] /\ hist = <<>> /\ n = 0
Tick == now < MaxT /\ now' = now + 1 /\ ev' = [k |-> "none"] /\ UNCHANGED <<cfg, held, last, cmd, hist, n>>
MJoy == Len(hist) < 3 /\ \E b \in Btn, a \in Axs : \E o \in JoyOut(now, b, a) :
          Joy(now, b, a, o) /\ ev' = [k |-> "joy", b |-> b, a |-> a, out |-> o, prev |-> cmd]
          /\ hist' = Append(hist, [t |-> now, b |-> b]) /\ UNCHANGED <<now, n>>
MIn == n < MaxN /\ LET v == <<n + 1, 0, 0, 0, 0, 0>> IN
          \E o \in {<<>>, <<v>>}, s \in {<<0>>, <<1>>} :
            In(now, v, o, s) /\ ev' = [k |-> "in", v |-> v, out |-> o] /\ n' = n + 1 /\ UNCHANGED <<now, hist>>
Next == Tick \/ MJoy \/ MIn
Spec == Init /\ [][Next]_mvars
HeldFresh == hist # <<>> /\ hist[Len(hist)].b # <<>> /\ hist[Len(hist)].b[1] = 1 /\ now - hist[Len(hist)].t <= Timeout
Exclusive == (ev.k = "in" /\ HeldFresh) => ev.out = <<>>
PassesOtherwise == (ev.k = "in" /\ ~HeldFresh) => ev.out = <<ev.v>>
LackingNeverMoves == (ev.k = "joy" /\ ev.b = <<>>) => ev.out = <<>>
NoAxesNoMotion == (ev.k = "joy" /\ ev.a = <<>> /\ ev.b # <<>> /\ ev.b[1] = 1) => ev.out = <<Zero6>>
HandsBack == (ev.k = "joy" /\ ev.b # <<>> /\ ev.b[1] = 0 /\ Len(hist) >= 2 /\ hist[Len(hist) - 1].b # <<>>
              /\ hist[Len(hist) - 1].b[1] = 1 /\ now - hist[Len(hist) - 1].t <= Timeout) => ev.out = <<ev.prev>>
=============================================================================
