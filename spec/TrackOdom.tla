----------------------------- MODULE TrackOdom -----------------------------
(* Odometry estimation from wheel odometry and an IMU (C22).
   Attitudes are rotation matrices with integer entries (rows), positions of the wheel odometry are in 1/8 m, estimated
   positions in 1e-4 m, angular velocities in 1/64 rad/s, times in 1/64 s, the slip state x and its deviation s in 1e-4.
   imu.tf is the list of rotations from the sensor to the base frame; empty while it is unknown. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Trunc(a, b) == IF a < 0 THEN 0 - ((0 - a) \div b) ELSE a \div b      \* b > 0
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Vec(M, v) == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
Tr(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[j][i]]]
Mat(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(A[i], <<B[1][j], B[2][j], B[3][j]>>)]]
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Unit == 1250        \* 1/8 m
One == 10000
--------------------------------------------------------------------------
(* slip: one prediction, then one measurement unless the wheel turns too slowly to tell *)
\* what is forgotten is never more than all of it
Predict(c, k, dt) == [x |-> IF dt * c.ptc >= 256 THEN 0 ELSE k.x - Trunc(k.x * dt * c.ptc, 256), s |-> k.s + (dt * c.sp) \div 64]
Informative(c, wo) == Abs(wo) > c.S
MeasR(c, wo) == LET q == wo * wo - c.S * c.S IN (((2 * Abs(wo) * c.S * c.S * 64 * 500) \div q) * 20) \div q
RECURSIVE Gain(_, _)
Gain(s, r) == IF r = 0 THEN One ELSE IF s > 9000 \/ r > 9000 THEN Gain(s \div 2, (r + 1) \div 2) ELSE LET d == s * s + r * r IN IF d \div 500 = 0 THEN One ELSE (s * s * 20) \div (d \div 500)
Measure(k, z, r) == LET g == Gain(k.s, r) IN [x |-> k.x + Trunc(g * (z - k.x), One), s |-> k.s - (g * k.s) \div One]
MeasZ(wo, wi) == IF wo = 0 THEN 0 ELSE IF wo < 0 THEN 0 - ((640000 * (wo - wi)) \div (wo * wo)) ELSE (640000 * (wo - wi)) \div (wo * wo)
Slip(c, k, dt, wo, wi) == LET p == Predict(c, k, dt) IN IF Informative(c, wo) THEN Measure(p, MeasZ(wo, wi), MeasR(c, wo)) ELSE p
\* a gyro which contradicts the wheels is not believed unless negative slip is enabled
Gyro(c, wo, wi) == IF wo * wi < 0 /\ ~c.neg THEN wo ELSE wi
--------------------------------------------------------------------------
Start == [odom |-> FALSE, imu |-> FALSE, base |-> FALSE, raw |-> <<>>, pos |-> <<0, 0, 0>>, att |-> Id, g |-> <<0, 0, 0>>, k |-> [x |-> 0, s |-> 1000]]
Launch(c) == [Start EXCEPT !.base = c.fixed]
\* an IMU sample counts if the base frame is known and the transform to it is available
SeeImu(st, m) ==
  IF ~st.base THEN st
  ELSE IF m.tf = <<>> THEN [st EXCEPT !.imu = FALSE]
  ELSE LET R == m.tf[1] IN [st EXCEPT !.imu = TRUE, !.att = Mat(Mat(R, m.att), Tr(R)), !.g = Vec(R, m.g)]
\* scale of the displacement as a fraction <<numerator, denominator>>
Scale(c, st, k, wo) ==
  LET wi == Gyro(c, wo, st.g[3]) IN
  IF c.kf THEN <<One - k.x, One>> ELSE IF Abs(wo) > 3 * c.S THEN (IF wo < 0 THEN <<0 - wi, 0 - wo>> ELSE <<wi, wo>>) ELSE <<1, 1>>
\* the height decays towards zero and does not pass it
Filtered(c, z, dt) == IF c.zt > 0 THEN (IF dt >= c.zt THEN 0 ELSE Trunc(z * (c.zt - dt), c.zt)) ELSE z
\* an odometry message: the new state, and the estimated pose if one is published
SeeOdom(c, st, o) ==
  IF ~st.odom THEN [st |-> [st EXCEPT !.odom = TRUE, !.raw = o, !.pos = <<Unit * o.p[1], Unit * o.p[2], Unit * o.p[3]>>], out |-> <<>>, d |-> <<0, 0, 0>>]
  ELSE IF ~st.imu THEN [st |-> [st EXCEPT !.base = TRUE], out |-> <<>>, d |-> <<0, 0, 0>>]
  ELSE LET dt == o.t - st.raw.t
           k == Slip(c, st.k, dt, o.w, Gyro(c, o.w, st.g[3]))
           d == Vec(st.att, Vec(Tr(o.rot), Minus(o.p, st.raw.p)))
           f == Scale(c, st, k, o.w)
           v == [i \in 1..3 |-> Trunc(d[i] * Unit * f[1], f[2])]
           pos == <<st.pos[1] + v[1], st.pos[2] + v[2], Filtered(c, st.pos[3] + v[3], dt)>>
       IN [st |-> [st EXCEPT !.base = TRUE, !.raw = o, !.pos = pos, !.k = k], out |-> <<[pos |-> pos, att |-> st.att, g |-> st.g]>>, d |-> d]
ResetZ(st, z) == [st EXCEPT !.pos[3] = z]
--------------------------------------------------------------------------
(* bounded model *)
CONSTANTS MPlaces, MRots, MTurns, MCfgs, MMax
VARIABLES c, st, last, seen, cons, n, big
vars == <<c, st, last, seen, cons, n, big>>
MInit == /\ c \in MCfgs /\ st = Launch(c) /\ last = <<>> /\ seen = [odom |-> FALSE, imu |-> FALSE] /\ cons = TRUE /\ n = 0 /\ big = 0
MPair(p, r, a, tf, w, g) ==
  LET m == [att |-> a, g |-> <<0, 0, g>>, tf |-> tf]
      s1 == SeeImu(st, m)
      o == [t |-> n, p |-> p, rot |-> r, w |-> w]
      q == SeeOdom(c, s1, o) IN
  /\ n < MMax /\ n' = n + 1
  /\ st' = q.st /\ last' = q.out
  /\ seen' = [odom |-> TRUE, imu |-> (st.base /\ tf # <<>>)]
  /\ cons' = (cons /\ (r = a \/ ~st.odom \/ ~s1.imu) /\ (tf = <<>> \/ tf[1] = Id) /\ g = w)
  /\ big' = q.d
  /\ UNCHANGED c
MReset(z) == /\ n < MMax /\ n' = n + 1 /\ st' = ResetZ(st, z) /\ last' = <<>> /\ cons' = (cons /\ ~st.odom) /\ UNCHANGED <<c, seen, big>>
MNext == \/ \E p \in MPlaces, r \in MRots, a \in MRots, tf \in {<<>>} \cup {<<x>> : x \in MRots}, w \in MTurns, g \in MTurns : MPair(p, r, a, tf, w, g)
         \/ \E z \in {0 - Unit, Unit} : MReset(z)
MSpec == MInit /\ [][MNext]_vars
\* published only with both inputs valid
Both == last # <<>> => (seen.odom /\ seen.imu)
\* a consistent gyro and no slip: the estimate follows the wheels exactly
Follows == (cons /\ last # <<>> /\ c.zt = 0 /\ st.k.x = 0) => \A i \in 1..3 : last[1].pos[i] = Unit * st.raw.p[i]
InRange == st.k.s >= 0
\* a measurement never makes the deviation grow, and its gain stays within [0, 1]
Shrinks == \A w \in MTurns, g \in MTurns, dt \in 0..2 :
   LET p == Predict(c, st.k, dt) IN
   /\ Slip(c, st.k, dt, w, g).s <= p.s
   /\ Informative(c, w) => Gain(p.s, MeasR(c, w)) \in 0..One
   /\ Abs(p.x) <= Abs(st.k.x)
   /\ ~Informative(c, w) => Slip(c, st.k, dt, w, g) = p
\* without slip scaling the length of a displacement is kept
Rigid == [][(last' # <<>> /\ c.zt = 0 /\ ~c.kf /\ Abs(st'.raw.w) <= 3 * c.S) =>
            LET v == Minus(st'.pos, st.pos)  u == Minus(st'.raw.p, st.raw.p) IN Dot(v, v) = Unit * Unit * Dot(u, u)]_vars
\* filtering moves the height towards zero
Decays == [][(last' # <<>> /\ c.zt > 0) => LET z == st'.pos[3]  u == st.pos[3] + big'[3] * Unit IN (c.kf \/ Abs(st'.raw.w) > 3 * c.S) \/ (Abs(z) <= Abs(u) /\ z * u >= 0)]_vars
\* losing the transform stops the output and loses no displacement
Held == [][(st.odom /\ ~st'.imu) => (last' = <<>> /\ st'.raw = st.raw)]_vars
=============================================================================
