------------------------------ MODULE Limiter ------------------------------
\* The safety limiter: obstacle clouds, a periodic prediction, a watchdog and a disable signal decide the factor
\* applied to each velocity command. A factor is an interval <<lo, hi>> (exact when lo = hi) in units of One.
EXTENDS Integers, Sequences
CONSTANTS Period, Timeout, DisableFor, Hold, Watchdog, MaxT, One, Predictions, Commands
VARIABLES now, st, out
vars == <<now, st, out>>
Never == 0 - 1000000
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Full == <<One, One>>
\* ---- state machine; c is the configuration
Start(c, t) == [has |-> FALSE, stamp |-> Never, r |-> Full, holdOff |-> Never, stop |-> FALSE, wdNext |-> IF c.watchdog > 0 THEN t + c.watchdog ELSE 0 - 1,
                lastDis |-> Never, tick |-> t + c.period, cmd |-> 0, clear |-> FALSE]
Disabled(s, t, c) == t - s.lastDis < c.disable
Blind(s) == ~s.has \/ s.stop
\* what is applied to a command: "raw" (only the speed caps), "zero", or scaled by s.r
ModeOf(s, t, c) == IF Disabled(s, t, c) THEN "raw" ELSE IF Blind(s) THEN "zero" ELSE "scaled"
AfterCmd(s, t, v, c) == [s EXCEPT !.cmd = v, !.r = IF ModeOf(s, t, c) = "scaled" /\ t > s.holdOff THEN Full ELSE @]
AfterCloud(s, stamp) == [s EXCEPT !.has = TRUE, !.stamp = stamp, !.clear = FALSE]
AfterReset(s, t, c) == [s EXCEPT !.stop = FALSE, !.wdNext = IF c.watchdog > 0 THEN t + c.watchdog ELSE @]
AfterDisable(s, t) == [s EXCEPT !.lastDis = t]
Stale(s, t, c) == t - s.stamp > c.timeout
\* possible states after a prediction tick with predicted factor p (interval); a stale cloud is dropped and the robot stopped
AfterTick(s, t, p, c) ==
  LET n == [s EXCEPT !.tick = t + c.period] IN
  IF ~s.has THEN {n}
  ELSE IF Stale(s, t, c) THEN {[n EXCEPT !.has = FALSE, !.r = <<0, 0>>, !.clear = FALSE]}
  ELSE LET m == [n EXCEPT !.r = <<Mn(@[1], p[1]), Mn(@[2], p[2])>>, !.clear = TRUE] IN
       (IF p[1] < One THEN {[m EXCEPT !.holdOff = t + Mx(c.hold, c.period)]} ELSE {}) \cup (IF p[2] >= One THEN {m} ELSE {})
TickStops(s, t, c) == s.has /\ Stale(s, t, c)
AfterWatchdog(s, t, c) == [s EXCEPT !.stop = TRUE, !.r = <<0, 0>>, !.wdNext = t + c.watchdog]
\* ---- bounded exploration: one-dimensional commands, any prediction
Cfg == [period |-> Period, timeout |-> Timeout, disable |-> DisableFor, hold |-> Hold, watchdog |-> Watchdog]
\* ghosts: when data and resets really arrived, last limiting prediction
Out(v, k) == [v |-> v, k |-> k]
Init == now = 0 /\ st = [s |-> Start(Cfg, 0), gStamp |-> Never, gExpired |-> FALSE, gLim |-> [t |-> Never, p |-> One], gCmd |-> 0, gDis |-> Never] /\ out = Out(0, "none")
Due == st.s.tick <= now \/ (Watchdog > 0 /\ st.s.wdNext <= now)
Pass == ~Due /\ now < MaxT /\ now' = now + 1 /\ out' = Out(0, "none") /\ UNCHANGED st
Cmd(v) == LET m == ModeOf(st.s, now, Cfg) IN
  /\ out' = Out(CASE m = "raw" -> v [] m = "zero" -> 0 [] OTHER -> (v * st.s.r[1]) \div One, "cmd")
  /\ st' = [st EXCEPT !.s = AfterCmd(@, now, v, Cfg), !.gCmd = v] /\ UNCHANGED now
Cloud(age) == st' = [st EXCEPT !.s = AfterCloud(@, now - age), !.gStamp = now - age] /\ out' = Out(0, "none") /\ UNCHANGED now
Reset == Watchdog > 0 /\ st' = [st EXCEPT !.s = AfterReset(@, now, Cfg), !.gExpired = FALSE] /\ out' = Out(0, "none") /\ UNCHANGED now
Disable == st' = [st EXCEPT !.s = AfterDisable(@, now), !.gDis = now] /\ out' = Out(0, "none") /\ UNCHANGED now
Tick(p) == /\ st.s.tick <= now
           /\ \E n \in AfterTick(st.s, now, <<p, p>>, Cfg) :
                st' = [st EXCEPT !.s = n, !.gLim = IF st.s.has /\ ~Stale(st.s, now, Cfg) /\ p < One THEN [t |-> now, p |-> p] ELSE @]
           /\ out' = IF TickStops(st.s, now, Cfg) THEN Out(0, "stop") ELSE Out(0, "none")
           /\ UNCHANGED now
Wd == /\ Watchdog > 0 /\ st.s.wdNext <= now /\ st' = [st EXCEPT !.s = AfterWatchdog(@, now, Cfg), !.gExpired = TRUE]
      /\ out' = Out(0, "stop") /\ UNCHANGED now
Next == Pass \/ (\E v \in Commands : Cmd(v)) \/ (\E a \in 0..1 : Cloud(a)) \/ Reset \/ Disable \/ (\E p \in Predictions : Tick(p)) \/ Wd
Spec == Init /\ [][Next]_vars
\* A timer that is due may be late by the schedule: the properties are stated for commands handled before or after it
Unseen == now - st.gStamp > Timeout + Period
BlindStops == [][(out'.k = "cmd" /\ ~(now - st.gDis < DisableFor) /\ ~Due /\ (Unseen \/ st.gExpired)) => out'.v = 0]_vars
NeverFaster == [][out'.k = "cmd" => (out'.v >= 0 /\ out'.v <= st'.gCmd)]_vars
\* after a limiting prediction the factor is not relaxed before the hold time ends
Holds == [][(out'.k = "cmd" /\ ~(now - st.gDis < DisableFor) /\ now <= st.gLim.t + Mx(Hold, Period)) => out'.v * One <= st'.gCmd * st.gLim.p]_vars
\* after a stop, motion needs newer data than the dropped ones, and a reset after the expiry
WatchdogLatched == st.gExpired = st.s.stop
NeverWithoutData == st.s.has => st.gStamp > Never
=============================================================================
