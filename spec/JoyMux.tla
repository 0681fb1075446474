------------------------------- MODULE JoyMux -------------------------------
(* Joystick multiplexer (property C18). Times in microseconds.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,      \* [timeout, latency, button]: latency = how late expiry may be noticed
          sel,      \* 1: button seen held, 0: default input
          last      \* time of the last joystick message that has the button
vars == <<cfg, sel, last>>
Start(t, c) == cfg' = c /\ sel' = 0 /\ last' = t
HasButton(b) == cfg.button >= 0 /\ cfg.button < Len(b)
Joy(t, b) ==
  /\ UNCHANGED cfg
  /\ IF HasButton(b) THEN /\ last' = t
                          /\ sel' = IF b[cfg.button + 1] # 0 THEN 1 ELSE 0
     ELSE UNCHANGED <<sel, last>>
\* which input may be the selected one at time t
Selectable(t) == IF sel = 0 \/ t - last > cfg.timeout + cfg.latency THEN {0}
                 ELSE IF t - last > cfg.timeout THEN {0, 1} ELSE {1}
\* a message arrives on input src; fwd is what comes out
In(t, src, msg, fwd) ==
  \E s \in Selectable(t) : /\ sel' = s
                           /\ fwd = IF s = src THEN <<msg>> ELSE <<>>
                           /\ UNCHANGED <<cfg, last>>
-----------------------------------------------------------------------------
(* bounded model: discrete time, two inputs; monitors the property itself     *)
CONSTANTS MaxT, Timeout, Latency
VARIABLES now, got, joys     \* got: latest input event [t, src, fwd]; joys: history of joystick messages
mvars == <<cfg, sel, last, now, got, joys>>
Init == /\ cfg = [timeout |-> Timeout, latency |-> Latency, button |-> 0] /\ sel = 0 /\ last = 0
        /\ now = 0 /\ got = <<>> /\ joys = <<>>
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<cfg, sel, last, joys>> /\ got' = <<>>
MJoy == Len(joys) < 4 /\ \E b \in {<<>>, <<0>>, <<1>>} : Joy(now, b) /\ joys' = Append(joys, [t |-> now, b |-> b]) /\ got' = <<>> /\ UNCHANGED now
MIn == \E src \in {0, 1} : \E f \in {<<>>, <<"m">>} : In(now, src, "m", f) /\ got' = [src |-> src, fwd |-> f] /\ UNCHANGED <<now, joys>>
Next == Tick \/ MJoy \/ MIn
Spec == Init /\ [][Next]_mvars
Valid == {i \in 1..Len(joys) : joys[i].b # <<>>}
LastValid == CHOOSE i \in Valid : \A j \in Valid : j <= i
Held == Valid # {} /\ joys[LastValid].b = <<1>>
FreshFor(d) == Valid # {} /\ now - joys[LastValid].t <= d
\* the alternate input passes, and only it, while the button is held in a fresh message
AltWhileHeld == (Held /\ FreshFor(Timeout) /\ got # <<>>) => got.fwd = (IF got.src = 1 THEN <<"m">> ELSE <<>>)
\* the default input passes, and only it, otherwise
DefOtherwise == ((~Held \/ ~FreshFor(Timeout + Latency)) /\ got # <<>>) => got.fwd = (IF got.src = 0 THEN <<"m">> ELSE <<>>)
\* once expired, silent until a new message
NoComeback == [][(sel = 0 /\ sel' = 1) => joys' # joys]_mvars
=============================================================================
