------------------------------- MODULE Pixels -------------------------------
(* C16-C19: pictures as functions from pixels to values (a gray level, or a *)
(* triple), and what drawing operations do to them.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AbsP(x) == IF x < 0 THEN 0 - x ELSE x
MaxP(a, b) == IF a > b THEN a ELSE b

(* --- C16: the saved bitmap --------------------------------------------- *)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
RowBytes(w, bits) == (w + bits - 1) \div bits
(* bit-packed rows, most significant bit first *)
BitAt(bytes, w, x, y, bits) ==
  (bytes[y * RowBytes(w, bits) + (x \div bits) + 1] \div P2(bits - 1 - (x % bits))) % 2

(* --- C17: straight lines ------------------------------------------------ *)
Steps(a, b) == MaxP(AbsP(b[1] - a[1]), AbsP(b[2] - a[2]))
(* twice the longer side times the distance (along the shorter axis) of pixel p
   from the ideal segment is at most the longer side *)
OnLine(p, a, b) ==
  LET dx == b[1] - a[1]  dy == b[2] - a[2] IN
  IF AbsP(dx) >= AbsP(dy)
  THEN 2 * AbsP((p[2] - a[2]) * dx - (p[1] - a[1]) * dy) <= AbsP(dx)
  ELSE 2 * AbsP((p[1] - a[1]) * dy - (p[2] - a[2]) * dx) <= AbsP(dy)
InRect(p, a, b) == /\ (a[1] <= p[1] /\ p[1] <= b[1]) \/ (b[1] <= p[1] /\ p[1] <= a[1])
                   /\ (a[2] <= p[2] /\ p[2] <= b[2]) \/ (b[2] <= p[2] /\ p[2] <= a[2])
Major(a, b) == IF AbsP(b[1] - a[1]) >= AbsP(b[2] - a[2]) THEN 1 ELSE 2
(* the painted pixels of one line *)
IsLine(S, a, b) ==
  LET m == Major(a, b) IN
  /\ a \in S /\ b \in S
  /\ \A p \in S : InRect(p, a, b) /\ OnLine(p, a, b)
  /\ Cardinality(S) = Steps(a, b) + 1
  /\ Cardinality({p[m] : p \in S}) = Steps(a, b) + 1
  /\ \A p \in S : p # b => \E q \in S : q # p /\ AbsP(q[1] - p[1]) <= 1 /\ AbsP(q[2] - p[2]) <= 1
                                          /\ AbsP(q[m] - b[m]) = AbsP(p[m] - b[m]) - 1

(* what is left of a line on a canvas (the pixels from lo to hi): of every step the
   nearest pixel if it is on the canvas, successive ones being neighbours     *)
On(p, lo, hi) == lo[1] <= p[1] /\ p[1] <= hi[1] /\ lo[2] <= p[2] /\ p[2] <= hi[2]
IsLineOn(S, a, b, lo, hi) ==
  IF On(a, lo, hi) /\ On(b, lo, hi) THEN IsLine(S, a, b) ELSE
  LET m == Major(a, b)  o == 3 - m
      px(k, v) == IF m = 1 THEN <<k, v>> ELSE <<v, k>>
      from == IF a[m] < b[m] THEN a[m] ELSE b[m]   to == IF a[m] < b[m] THEN b[m] ELSE a[m]
      low == IF a[o] < b[o] THEN a[o] ELSE b[o]    top == IF a[o] < b[o] THEN b[o] ELSE a[o]
  IN /\ \A p \in {a, b} : On(p, lo, hi) => p \in S
     /\ \A p \in S : On(p, lo, hi) /\ InRect(p, a, b) /\ OnLine(p, a, b)
     /\ Cardinality({p[m] : p \in S}) = Cardinality(S)
     /\ \A k \in MaxP(from, lo[m])..(IF to < hi[m] THEN to ELSE hi[m]) :
          \/ \E p \in S : p[m] = k
          \/ \E v \in low..top : OnLine(px(k, v), a, b) /\ ~On(px(k, v), lo, hi)
     /\ \A p, q \in S : AbsP(p[m] - q[m]) = 1 => AbsP(p[o] - q[o]) <= 1

(* --- C18: filled polygons ----------------------------------------------- *)
(* an edge crossing row y (top row included, bottom excluded): the nearest
   pixel column to its crossing, as an interval when it lies half-way *)
Crosses(e, y) == LET t == IF e[1][2] < e[2][2] THEN e[1][2] ELSE e[2][2]
                     b == IF e[1][2] < e[2][2] THEN e[2][2] ELSE e[1][2] IN t <= y /\ y < b
Down(e) == e[1][2] < e[2][2]
Mark(e, y) ==
  LET p == IF Down(e) THEN e[1] ELSE e[2]   q == IF Down(e) THEN e[2] ELSE e[1]
      d == q[2] - p[2]                       \* > 0
      n == p[1] * d + (q[1] - p[1]) * (y - p[2])
      f == (2 * n + d) \div (2 * d)           \* rounds half up
  IN IF (2 * n + d) % (2 * d) = 0 THEN <<f - 1, f>> ELSE <<f, f>>
Edges(poly) == {<<i, poly[i], poly[IF i = Len(poly) THEN 1 ELSE i + 1]>> : i \in 1..Len(poly)}
AllEdges(polys) == UNION {{<<k, e[1], e[2], e[3]>> : e \in Edges(polys[k])} : k \in 1..Len(polys)}
(* is the pixel inside (upward edges bound on the left)?  "yes", "no", "tie" *)
RowMarks(polys, y) == {<<e, Down(<<e[3], e[4]>>), Mark(<<e[3], e[4]>>, y)>> :
                         e \in {e \in AllEdges(polys) : Crosses(<<e[3], e[4]>>, y)}}
Inside(marks, x) ==
  LET hi == Cardinality({m \in marks : ~m[2] /\ m[3][1] <= x}) - Cardinality({m \in marks : m[2] /\ m[3][2] <= x})
      lo == Cardinality({m \in marks : ~m[2] /\ m[3][2] <= x}) - Cardinality({m \in marks : m[2] /\ m[3][1] <= x})
  IN IF lo > 0 THEN "yes" ELSE IF hi <= 0 THEN "no" ELSE "tie"

(* --- C19: anti-aliased lines -------------------------------------------- *)
(* opacity of a pixel as a fraction <<n, d>> of one anti-aliased line a # b *)
Opacity(p, a, b) ==
  LET m == Major(a, b)  o == 3 - m
      L == AbsP(b[m] - a[m])
      k == AbsP(p[m] - a[m])
      inside == (a[m] <= p[m] /\ p[m] <= b[m]) \/ (b[m] <= p[m] /\ p[m] <= a[m])
      dev == AbsP((p[o] - a[o]) * L - k * (b[o] - a[o]))       \* distance times L
  IN IF ~inside \/ dev >= L THEN <<0, 1>>
     ELSE IF k = 0 \/ k = L THEN <<L - dev, 2 * L>> ELSE <<L - dev, L>>
(* ends anywhere, in units of which a pixel has Q (even): the opacity of a     *)
(* pixel of a step is its nearness to the segment there, times the part of    *)
(* the step that the segment covers                                           *)
CoverF(k, u, v, Q) == LET lo == IF u < v THEN u ELSE v  hi == IF u < v THEN v ELSE u
                          l == MaxP(lo, k * Q - Q \div 2)
                          h == IF hi < k * Q + Q \div 2 THEN hi ELSE k * Q + Q \div 2 IN MaxP(h - l, 0)
OpacityF(p, a, b, Q) ==
  LET m == Major(a, b)  o == 3 - m
      L == AbsP(b[m] - a[m])
      sg == IF b[m] >= a[m] THEN 1 ELSE 0 - 1
      dev == AbsP((p[o] * Q - a[o]) * L - (p[m] * Q - a[m]) * sg * (b[o] - a[o]))   \* distance times Q * L
      g == CoverF(p[m], a[m], b[m], Q)
  IN IF L = 0 \/ dev >= Q * L \/ g = 0 THEN <<0, 1>> ELSE <<(Q * L - dev) * g, Q * Q * L>>
(* level v is bg + (fg - bg) * n / d within one level *)
Mixed(v, bg, fg, n, d) == AbsP(d * (v - bg) - (fg - bg) * n) <= d
=============================================================================
