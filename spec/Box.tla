-------------------------------- MODULE Box --------------------------------
(* C01-C03: axis-aligned boxes <<x0, y0, x1, y1>> with integer coordinates  *)
(* (the harness scales fractional ones), read as half-open point sets.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == <<0, 0, 0, 0>>
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
W(b) == b[3] - b[1]
H(b) == b[4] - b[2]
Area(b) == W(b) * H(b)

HasPoint(b, p) == b[1] <= p[1] /\ p[1] < b[3] /\ b[2] <= p[2] /\ p[2] < b[4]
HasBox(a, b) == HasPoint(a, <<b[1], b[2]>>) /\ HasPoint(a, <<b[3], b[4]>>)

(* smallest box covering both; the default empty box is neutral *)
Union(a, b) ==
  IF a = Empty THEN b ELSE IF b = Empty THEN a
  ELSE <<MinI(a[1], b[1]), MinI(a[2], b[2]), MaxI(a[3], b[3]), MaxI(a[4], b[4])>>

Inter(a, b) ==
  LET c == <<MaxI(a[1], b[1]), MaxI(a[2], b[2]), MinI(a[3], b[3]), MinI(a[4], b[4])>>
  IN IF Area(a) = 0 \/ Area(b) = 0 \/ c[1] >= c[3] \/ c[2] >= c[4] THEN Empty ELSE c

Collide(a, b) == Inter(a, b) # Empty      \* for boxes of positive area

(* tight box of a growing collection of points *)
Point(p) == <<p[1], p[2], p[1], p[2]>>
Extend(b, p) == <<MinI(b[1], p[1]), MinI(b[2], p[2]), MaxI(b[3], p[1]), MaxI(b[4], p[2])>>
RECURSIVE TightFrom(_, _, _)
TightFrom(b, ps, i) == IF i > Len(ps) THEN b ELSE TightFrom(Extend(b, ps[i]), ps, i + 1)
Tight(ps) == TightFrom(Point(ps[1]), ps, 2)

Cmp(a, b) == [lt |-> Area(a) < Area(b), le |-> Area(a) <= Area(b),
              gt |-> Area(a) > Area(b), ge |-> Area(a) >= Area(b),
              eq |-> a = b, ne |-> a # b, truth |-> Area(a) # 0]
=============================================================================
