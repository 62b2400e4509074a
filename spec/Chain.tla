------------------------------- MODULE Chain -------------------------------
(* C05, C06: what a polyline traces.  A path is a sequence of grid points.  *)
(* On each supporting line the net signed tracing of a path is determined   *)
(* by its boundary (+1 where a segment arrives, -1 where it leaves), hence  *)
(* two paths trace every grid segment the same net number of times exactly  *)
(* when these boundaries agree on every line.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN 0 - x ELSE x

(* supporting line of a # b: primitive direction (sign normalized), offset *)
LineOf(a, b) ==
  LET dx == b[1] - a[1]  dy == b[2] - a[2]
      g == Gcd(AbsI(dx), AbsI(dy))
      s == IF dx < 0 \/ (dx = 0 /\ dy < 0) THEN 0 - 1 ELSE 1
      u == s * (dx \div (g * 1))  v == s * (dy \div (g * 1))
  IN <<u, v, u * a[2] - v * a[1]>>

Segs(path) == {i \in 1..(Len(path) - 1) : path[i] # path[i + 1]}
Keys(path) == UNION {{<<LineOf(path[i], path[i + 1]), path[i]>>,
                      <<LineOf(path[i], path[i + 1]), path[i + 1]>>} : i \in Segs(path)}
Net(path, key) ==
  Cardinality({i \in Segs(path) : path[i + 1] = key[2] /\ LineOf(path[i], path[i + 1]) = key[1]})
  - Cardinality({i \in Segs(path) : path[i] = key[2] /\ LineOf(path[i], path[i + 1]) = key[1]})
ChainEq(P, Q) == \A key \in Keys(P) \cup Keys(Q) : Net(P, key) = Net(Q, key)

Close(ring) == IF ring = <<>> THEN <<>> ELSE Append(ring, ring[1])

RECURSIVE DedupFrom(_, _)
DedupFrom(path, i) ==
  IF i > Len(path) THEN <<>>
  ELSE IF i > 1 /\ path[i] = path[i - 1] THEN DedupFrom(path, i + 1)
  ELSE <<path[i]>> \o DedupFrom(path, i + 1)
Dedup(path) == DedupFrom(path, 1)
RingDedup(ring) == LET d == Dedup(ring) IN
  IF Len(d) > 1 /\ d[Len(d)] = d[1] THEN SubSeq(d, 1, Len(d) - 1) ELSE d

Cross(a, b, c) == (b[1] - a[1]) * (c[2] - b[2]) - (b[2] - a[2]) * (c[1] - b[1])
Dot(a, b, c) == (b[1] - a[1]) * (c[1] - b[1]) + (b[2] - a[2]) * (c[2] - b[2])
Turns(a, b, c) == Cross(a, b, c) # 0
Reverses(a, b, c) == Cross(a, b, c) = 0 /\ Dot(a, b, c) < 0

(* open paths without repetition *)
Straight(path) == \A i \in 2..(Len(path) - 1) : ~Reverses(path[i - 1], path[i], path[i + 1])
RECURSIVE TurnsFrom(_, _)
TurnsFrom(path, i) ==
  IF i >= Len(path) THEN <<>>
  ELSE (IF Turns(path[i - 1], path[i], path[i + 1]) THEN <<path[i]>> ELSE <<>>)
       \o TurnsFrom(path, i + 1)
Corners(path) == TurnsFrom(path, 2)
(* first point, turning points, last point *)
Exact(path) == IF Len(path) <= 1 THEN path
               ELSE <<path[1]>> \o Corners(path) \o <<path[Len(path)]>>

(* rings without repetition *)
At(ring, i) == ring[((i - 1) % Len(ring)) + 1]
RingStraight(ring) == Len(ring) >= 3 /\
  \A i \in 1..Len(ring) : ~Reverses(At(ring, i + Len(ring) - 1), ring[i], At(ring, i + 1))
RECURSIVE RingTurnsFrom(_, _)
RingTurnsFrom(ring, i) ==
  IF i > Len(ring) THEN <<>>
  ELSE (IF Turns(At(ring, i + Len(ring) - 1), ring[i], At(ring, i + 1)) THEN <<ring[i]>> ELSE <<>>)
       \o RingTurnsFrom(ring, i + 1)
Rotations(r) == {SubSeq(r, i, Len(r)) \o SubSeq(r, 1, i - 1) : i \in 1..Len(r)}
(* the turning points, with or without the starting point *)
RingExact(ring) ==
  LET c == RingTurnsFrom(ring, 2)
      t == RingTurnsFrom(ring, 1)
  IN Rotations(<<ring[1]>> \o c) \cup Rotations(t)

RECURSIVE SubseqFrom(_, _, _, _)
SubseqFrom(a, i, b, j) ==
  IF i > Len(a) THEN TRUE
  ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN SubseqFrom(a, i + 1, b, j + 1)
  ELSE SubseqFrom(a, i, b, j + 1)
IsSubseq(a, b) == SubseqFrom(a, 1, b, 1)

RECURSIVE Area2From(_, _)
Area2From(r, i) == IF i > Len(r) THEN 0
  ELSE r[i][1] * At(r, i + 1)[2] - At(r, i + 1)[1] * r[i][2] + Area2From(r, i + 1)
Area2(r) == IF r = <<>> THEN 0 ELSE Area2From(r, 1)

(* rounding x/m to the nearest integer, halves away from zero (m > 0) *)
Round(x, m) == IF x >= 0 THEN (2 * x + m) \div (2 * m)
               ELSE 0 - ((2 * (0 - x) + m) \div (2 * m))

(* an excursion from a vertex and exactly back; its turning points *)
Excursion(a, e) == LET w == <<a>> \o e IN
  [i \in 1..(2 * Len(e)) |-> IF i <= Len(e) THEN e[i] ELSE w[2 * Len(e) - i + 1]]
Insert(path, i, e) == SubSeq(path, 1, i) \o Excursion(path[i], e) \o SubSeq(path, i + 1, Len(path))
TurningPoints(a, e) == Len(Corners(<<a>> \o e))
=============================================================================
