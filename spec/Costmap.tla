------------------------------ MODULE Costmap ------------------------------
(* Layered configuration-space costmaps: inflation of a 2-D map by a per-heading template, overlay layers (maximum or
   overwrite, unknown handling, stop of propagation), incremental refresh by regions, and a consumer that rebuilds the
   costmap from the published base map and region updates.
   A map is [w, h, ox, oy, data], a costmap cell index is (yaw * H + y) * W + x + 1. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* template: T.r (range in cells) and T.c[yaw+1][(dy + r) * (2r+1) + dx + r + 1]
TAt(T, yaw, dx, dy) == IF Abs(dx) > T.r \/ Abs(dy) > T.r THEN 0 ELSE T.c[yaw + 1][(dy + T.r) * (2 * T.r + 1) + dx + T.r + 1]
MapAt(m, x, y) == IF x < 0 \/ y < 0 \/ x >= m.w \/ y >= m.h THEN -1 ELSE m.data[y * m.w + x + 1]
CX(k, W, H) == (k - 1) % W
CY(k, W, H) == ((k - 1) \div W) % H
CA(k, W, H) == (k - 1) \div (W * H)
\* cells of an overlay (in base map cells) that hold an obstacle inside the base map: <<x, y, value>>
Obstacles(m, ox, oy, W, H) == {<<x, y, m.data[(y - oy) * m.w + (x - ox) + 1]>> : x \in {x \in 0..(W - 1) : x - ox >= 0 /\ x - ox < m.w},
                                                                              y \in {y \in 0..(H - 1) : y - oy >= 0 /\ y - oy < m.h}}
RECURSIVE MaxOver(_, _, _, _, _, _)
MaxOver(S, T, yaw, x, y, acc) ==
  IF S = {} THEN acc
  ELSE LET o == CHOOSE o \in S : TRUE
           c == (TAt(T, yaw, x - o[1], y - o[2]) * o[3]) \div 100 IN
       MaxOver(S \ {o}, T, yaw, x, y, IF c > 0 THEN Max(acc, c) ELSE acc)
\* one layer with template applied on the costmap C (W x H x A)
ApplyMap(C, m, ox, oy, T, overwrite, keep, W, H, A) ==
  LET obs == {o \in Obstacles(m, ox, oy, W, H) : o[3] > 0} IN
  [k \in 1..(W * H * A) |->
     LET x == CX(k, W, H)  y == CY(k, W, H)  a == CA(k, W, H)
         ux == x - ox  uy == y - oy
         v == MapAt(m, ux, uy)
         in == ux >= 0 /\ uy >= 0 /\ ux < m.w /\ uy < m.h
         c0 == IF overwrite /\ v >= 0 /\ ux >= T.r /\ uy >= T.r /\ ux < m.w - T.r /\ uy < m.h - T.r THEN -1 ELSE C[k]
         c1 == IF v = 0 /\ c0 < 0 THEN 0 ELSE c0
     IN IF keep /\ in /\ v < 0 /\ c0 < 0 THEN -1
        ELSE MaxOver({o \in obs : Abs(o[1] - x) <= T.r /\ Abs(o[2] - y) <= T.r}, T, a, x, y, c1)]
BaseCost(b, T, A) ==
  LET e == [k \in 1..(b.w * b.h * A) |-> -1]
      f == ApplyMap(e, b, 0, 0, T, FALSE, FALSE, b.w, b.h, A) IN
  [k \in 1..(b.w * b.h * A) |-> IF MapAt(b, CX(k, b.w, b.h), CY(k, b.w, b.h)) < 0 THEN -1 ELSE f[k]]
\* one layer of configuration L with the latest overlay o (<<>> if none)
ApplyLayer(C, L, T, o, b, A) ==
  CASE L.kind = "stop" -> [k \in DOMAIN C |-> -1]
    [] L.kind = "unknown" -> [k \in DOMAIN C |-> IF C[k] < 0 THEN L.cost ELSE C[k]]
    [] L.kind = "out" -> C
    [] OTHER -> IF o = <<>> \/ o.frame # b.frame THEN C
                ELSE ApplyMap(C, o, o.ox - b.ox, o.oy - b.oy, T, L.overwrite, L.keep, b.w, b.h, A)
RECURSIVE Chain(_, _, _, _, _, _, _)
Chain(C, Ls, i, Ts, os, b, A) == IF i > Len(Ls) THEN C ELSE Chain(ApplyLayer(C, Ls[i], Ts[i], os[i], b, A), Ls, i + 1, Ts, os, b, A)
\* consumers
InReg(k, u, W, H) == CX(k, W, H) >= u.x /\ CX(k, W, H) < u.x + u.w /\ CY(k, W, H) >= u.y /\ CY(k, W, H) < u.y + u.h /\ CA(k, W, H) >= u.yaw /\ CA(k, W, H) < u.yaw + u.a
UpdAt(u, k, W, H) == u.data[((CA(k, W, H) - u.yaw) * u.h + CY(k, W, H) - u.y) * u.w + CX(k, W, H) - u.x + 1]
Consume(base, u, W, H) == [k \in DOMAIN base |-> IF InReg(k, u, W, H) THEN UpdAt(u, k, W, H) ELSE base[k]]
------------------------------------------------------------------------------
\* Bounded model of the incremental refresh on a one-row map: two maximum/overwrite layers above a base.
CONSTANTS N, Vals, WinW, Tmpl, Over2
VARIABLES base, ov, lay, prevR, sent, got
vars == <<base, ov, lay, prevR, sent, got>>
\* a region is <<x1, x2>> (half open), <<0, 0>> when empty
Clip(r) == LET a == Max(0, r[1])  c == Min(N, r[2]) IN IF a >= c THEN <<0, 0>> ELSE <<a, c>>
Hull(r, s) == IF r[1] = r[2] THEN s ELSE IF s[1] = s[2] THEN r ELSE <<Min(r[1], s[1]), Max(r[2], s[2])>>
WinOf(o) == IF o = <<>> THEN <<0, 0>> ELSE LET c == Clip(<<o.ox, o.ox + o.w>>) IN IF c = <<0, 0>> THEN c ELSE Clip(<<c[1] - Tmpl.r, c[2] + Tmpl.r>>)
Copy(dst, src, r) == [k \in DOMAIN dst |-> IF k - 1 >= r[1] /\ k - 1 < r[2] THEN src[k] ELSE dst[k]]
Ap(C, o, i) == IF o = <<>> THEN C ELSE ApplyMap(C, o, o.ox, 0, Tmpl, IF i = 2 THEN Over2 ELSE FALSE, FALSE, N, 1, 1)
Full(b, o1, o2) == Ap(Ap(BaseCost(b, Tmpl, 1), o1, 1), o2, 2)
Wins == {<<>>} \cup {[w |-> WinW, h |-> 1, ox |-> x, oy |-> 0, data |-> d] : x \in (0 - WinW)..N, d \in [1..WinW -> Vals]}
Bases == {[w |-> N, h |-> 1, ox |-> 0, oy |-> 0, data |-> d] : d \in [1..N -> Vals]}
\* refresh of layers 1 and 2 starting with region r at layer i (0: from a new base)
Refresh(b, o, i, r) ==
  LET bc == BaseCost(b, Tmpl, 1)
      d1 == WinOf(o[1])  d2 == Hull(d1, WinOf(o[2]))
      r1 == IF i <= 1 THEN Hull(Hull(r, d1), prevR[1]) ELSE <<0, 0>>
      l1 == IF i = 0 THEN Ap(bc, o[1], 1) ELSE IF i = 1 THEN Ap(Copy(lay[1], bc, r1), o[1], 1) ELSE lay[1]
      r2 == Hull(Hull(IF i = 2 THEN r ELSE r1, d2), prevR[2])
      l2 == IF i = 0 THEN Ap(l1, o[2], 2) ELSE Ap(Copy(lay[2], l1, r2), o[2], 2) IN
  /\ base' = b /\ ov' = o /\ lay' = <<l1, l2>>
  /\ prevR' = <<IF i <= 1 THEN d1 ELSE prevR[1], d2>>
  /\ IF i = 0 THEN sent' = <<0, N>> /\ got' = BaseCost(b, Tmpl, 1)
     ELSE /\ sent' = r2
          /\ LET pub == Hull(r2, sent) IN got' = Copy(BaseCost(b, Tmpl, 1), l2, pub)
Init == /\ base = CHOOSE b \in Bases : \A k \in 1..N : b.data[k] = 0
        /\ ov = <<<<>>, <<>>>> /\ lay = <<BaseCost(base, Tmpl, 1), BaseCost(base, Tmpl, 1)>> /\ prevR = <<<<0, 0>>, <<0, 0>>>>
        /\ sent = <<0, N>> /\ got = BaseCost(base, Tmpl, 1)
NewBase == \E b \in Bases : Refresh(b, ov, 0, <<0, N>>)
NewOv(i) == \E o \in Wins \ {<<>>} : LET os == [ov EXCEPT ![i] = o] IN Refresh(base, os, i, WinOf(o))
Next == NewBase \/ NewOv(1) \/ NewOv(2)
Spec == Init /\ [][Next]_vars
Exact == lay[2] = Full(base, ov[1], ov[2])
ConsumerExact == sent # <<0, N>> \/ prevR[2] # <<0, 0>> => (got = lay[2] \/ got = BaseCost(base, Tmpl, 1))
UpdateExact == [][(\E i \in 1..2 : ov'[i] # ov[i]) => got' = Full(base', ov'[1], ov'[2])]_vars
Sound == \A k \in 1..N : base.data[k] = 100 => \A j \in 1..N : (TAt(Tmpl, 0, j - k, 0) = 100 /\ base.data[j] >= 0) => BaseCost(base, Tmpl, 1)[j] = 100
=============================================================================
