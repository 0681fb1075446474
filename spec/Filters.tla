------------------------------- MODULE Filters -------------------------------
(* First-order filters, scalar Kalman filter and running mean (property C27).  *)
(* A filter with time constant T (samples) has K = 2T; its step is the         *)
(* trapezoidal discretisation of the first-order lag. All relations are given  *)
(* division-free, so they are exact over the integers/rationals.               *)
EXTENDS Integers, Sequences, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* (K+1)^2 out' = (K^2-1) out + (3K+1) in - (K-1) in_prev
LowPass(K, out, inp, in, out2) == (K + 1) * (K + 1) * out2 - (K * K - 1) * out - (3 * K + 1) * in + (K - 1) * inp
\* (K+1)^2 out' = (K-1) ((K+1) out + K (in - in_prev))
HighPass(K, out, inp, in, out2) == (K + 1) * (K + 1) * out2 - (K - 1) * ((K + 1) * out + K * (in - inp))
\* Kalman measurement with standard deviations s (state) and r (measurement)
KalX(x, s, xin, r, x2) == (s * s + r * r) * x2 - (r * r * x + s * s * xin)
KalS(s, r, s2) == (s * s + r * r) * s2 - r * r * s
-----------------------------------------------------------------------------
\* bounded machine: K = 3 (weights 4/8, 5/8, -1/8) with values scaled by 8^Depth, so every step is exact
CONSTANTS Inputs, Depth
Scale == 8 ^ Depth
VARIABLES out, inp, lo, hi, n, hp
vars == <<out, inp, lo, hi, n, hp>>
Init == \E v \in Inputs : out = v * Scale /\ inp = out /\ lo = out /\ hi = out /\ n = 0 /\ hp = 0
In(v) == LET x == v * Scale IN
  /\ n < Depth /\ n' = n + 1
  /\ out' = (4 * out + 5 * x - inp) \div 8
  /\ LowPass(3, out, inp, x, out') = 0
  /\ inp' = x /\ lo' = Min(lo, x) /\ hi' = Max(hi, x)
  /\ hp' = (2 * (4 * hp + 3 * (x - inp))) \div 16
Reset(v) == out' = v * Scale /\ inp' = out' /\ lo' = out' /\ hi' = out' /\ UNCHANGED <<n, hp>>
Next == \E v \in Inputs : In(v) \/ (n > 0 /\ n < Depth /\ Reset(v))
Spec == Init /\ [][Next]_vars
Hull == lo <= out /\ out <= hi
Steady == [][(inp' = inp /\ out = inp) => out' = out]_vars
Closer == [][(n' = n + 1 /\ inp' = inp) => Abs(out' - inp') <= Abs(out - inp')]_vars
HpDecay == [][(n' = n + 1 /\ inp' = inp) => Abs(hp') <= Abs(hp)]_vars
\* Kalman: between prediction and measurement, never less certain (rational cross-multiplied)
ASSUME KalmanBetween == \A x \in -2..2, s \in 0..3, xin \in -2..2, r \in 0..3 : s + r > 0 =>
   LET d == s * s + r * r  X == r * r * x + s * s * xin IN
   /\ Min(x, xin) * d <= X /\ X <= Max(x, xin) * d
   /\ r * r * s <= d * s
   /\ (r = 0 => X = d * xin)
=============================================================================
