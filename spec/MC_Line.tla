------------------------------- MODULE MC_Line -------------------------------
(* C17: Bresenham's machine paints a line; C19: opacities of every pixel.   *)
EXTENDS Pixels, Json
CONSTANTS N
VARIABLES a, b, p, err, done, S
vars == <<a, b, p, err, done, S>>
G == (0..N) \X (0..N)
DX == AbsP(b[1] - a[1])
DY == AbsP(b[2] - a[2])
SX == IF a[1] < b[1] THEN 1 ELSE 0 - 1
SY == IF a[2] < b[2] THEN 1 ELSE 0 - 1
Init == a \in G /\ b \in G /\ p = a /\ err = AbsP(b[1] - a[1]) - AbsP(b[2] - a[2]) /\ done = FALSE /\ S = {}
Paint ==
  /\ ~done /\ UNCHANGED <<a, b>>
  /\ LET movex == 2 * err > 0 - DY  movey == 2 * err < DX
         nx == IF movex THEN <<p[1] + SX, p[2]>> ELSE p
         early == movex /\ nx = b
     IN IF p = b THEN S' = S \cup {p} /\ done' = TRUE /\ UNCHANGED <<p, err>>
        ELSE IF early THEN S' = S \cup {p, b} /\ done' = TRUE /\ p' = b /\ UNCHANGED err
        ELSE /\ S' = S \cup {p} /\ done' = FALSE
             /\ err' = (IF movex THEN err - DY ELSE err) + (IF movey THEN DX ELSE 0)
             /\ p' = IF movey THEN <<nx[1], nx[2] + SY>> ELSE nx
Next == Paint
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Near == OnLine(p, a, b) /\ InRect(p, a, b)
Line == done => IsLine(S, a, b)
Minor(q, m, k, v) == IF m = 1 THEN <<k, v>> ELSE <<v, k>>
(* on whatever part of the plane: exactly the visible part is a line there *)
Clipped == done => \A lo, hi \in {<<i, j>> : i \in {0, 1, N - 1}, j \in {0, 2, N}} :
  (lo[1] <= hi[1] /\ lo[2] <= hi[2]) =>
    /\ IsLineOn({q \in S : On(q, lo, hi)}, a, b, lo, hi)
    /\ \A q \in S : (On(q, lo, hi) /\ \A v \in 0..N : v # q[3 - Major(a, b)] => ~OnLine(Minor(q, Major(a, b), q[Major(a, b)], v), a, b))
          => ~IsLineOn({r \in S : On(r, lo, hi)} \ {q}, a, b, lo, hi)
Ends == <>done
(* opacities: two pixels per step, adding up to one (a half at the ends) *)
Shares == (p = a /\ ~done /\ a # b) =>
  LET m == Major(a, b) IN
  \A k \in (IF a[m] < b[m] THEN a[m]..b[m] ELSE b[m]..a[m]) :
    LET col == {v \in 0..N : Opacity(Minor(a, m, k, v), a, b)[1] > 0} 
        RECURSIVE Tot(_)
        Tot(T) == IF T = {} THEN 0 ELSE LET v == CHOOSE v \in T : TRUE o == Opacity(Minor(a, m, k, v), a, b) IN
                    (o[1] * (2 * Steps(a, b))) \div o[2] + Tot(T \ {v})
    IN /\ Cardinality(col) \in 1..2
       /\ Tot(col) = Steps(a, b) * (IF k \in {a[m], b[m]} THEN 1 ELSE 2)
Symmetric == (p = a /\ ~done /\ a # b) =>
  \A q \in G : LET o == Opacity(q, a, b) r == Opacity(q, b, a) IN o[1] * r[2] = r[1] * o[2]
Export == done => PrintT("@E" \o ToJson(<<a, b, S>>))
=============================================================================
