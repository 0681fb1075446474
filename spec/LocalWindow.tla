----------------------------- MODULE LocalWindow -----------------------------
\* The simulated local map: a square window of w cells of a large map, with its effects, in exact integer geometry.
\* Cell offsets are counted in half cells from the window centre: X = 2 * lx - w.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Widths, Larges
Unknown == 0 - 1
Lethal == 100
Sq(x) == x * x
\* squared distance of cell <<x, y>> to the centre, in quarter cells
R4(w, c) == Sq(2 * c[1] - w) + Sq(2 * c[2] - w)
Wall(w, c) == w >= 4 /\ R4(w, c) <= Sq(w) /\ R4(w, c) >= Sq(w - 4)
WallSmall(w, c) == R4(w, c) <= Sq(w) /\ R4(w, c) >= Sq(w - 4)
Outside(w, c) == R4(w, c) > Sq(w)
Sample(large, x, y) == IF x < 0 \/ y < 0 \/ x >= large.w \/ y >= large.h THEN Unknown ELSE large.data[y * large.w + x + 1]
\* window with lower left cell <<gx, gy>>, before occlusion
Base(large, w, gx, gy, round, walls, c) ==
  IF walls /\ WallSmall(w, c) THEN Lethal ELSE IF round /\ Outside(w, c) THEN Unknown ELSE Sample(large, gx + c[1], gy + c[2])
\* the cells a ray from the centre to cell c meets at half-cell steps from one cell on up to one cell before c:
\* component i at radius R/2 lies in the cell k with  k <= w/2 + X R / (2 sqrt(L2)) < k + 1
SgnSq(x) == IF x < 0 THEN 0 - x * x ELSE x * x
AtLeast(w, X, L2, R, k) == SgnSq(2 * k - w) * L2 <= SgnSq(X * R)     \* (2k - w) sqrt(L2) <= X R
Comp(w, X, L2, R) == CHOOSE k \in 0..w : AtLeast(w, X, L2, R, k) /\ ~AtLeast(w, X, L2, R, k + 1)
Ray(w, c) == LET X == 2 * c[1] - w  Y == 2 * c[2] - w  L2 == X * X + Y * Y IN
  {<<Comp(w, X, L2, R), Comp(w, Y, L2, R)>> : R \in {R \in 2..(2 * w) : Sq(R + 2) < L2}} \ {c}
Cells(w) == (0..(w - 1)) \X (0..(w - 1))
\* ---- checked on the specification itself
VARIABLES w
Init == w \in Widths
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
\* a ray stays in the window, is never met by cells behind its end, and gets closer to the target
RayInside == \A c \in Cells(w) : Ray(w, c) \subseteq Cells(w)
RayShort == \A c \in Cells(w) : \A k \in Ray(w, c) : Sq(k[1] - c[1]) + Sq(k[2] - c[2]) <= 2 * Sq(w)
\* walls close the round window: nothing inside the disc reaches the rim without passing a wall cell (4-connected)
Rim == {c \in Cells(w) : WallSmall(w, c)}
WallsClosed == w >= 8 => \A c \in Cells(w) : (R4(w, c) < Sq(w - 4)) => \A d \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} :
                 LET n == <<c[1] + d[1], c[2] + d[2]>> IN n \in Cells(w) /\ (R4(w, n) < Sq(w - 4) \/ n \in Rim)
=============================================================================
