-------------------------------- MODULE Shp --------------------------------
(* C11, C13: the layout of shapefiles.  Files are sequences of bytes.  A      *)
(* double is the tuple of its four 16-bit words, most significant first, so   *)
(* that equality and order are decided without rounding.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NULL == 0
Points == {1, 11, 21}
Boxed == {3, 5, 8, 13, 15, 18, 23, 25, 28, 31}
Parted == {3, 5, 13, 15, 23, 25, 31}
Rings == {5, 15, 25, 31}
HasZ == {11, 13, 15, 18, 31}
HasM == {11, 13, 15, 18, 21, 23, 25, 28, 31}
Types == Points \cup Boxed \cup {NULL}

(* ------- doubles *)
DZero == <<0, 0, 0, 0>>
Minus(d) == d[1] >= 32768
Lex(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
DLt(a, b) == IF Minus(a) # Minus(b) THEN Minus(a) ELSE IF Minus(a) THEN Lex(b, a) ELSE Lex(a, b)
RECURSIVE MinFrom(_, _, _)
MinFrom(q, i, m) == IF i > Len(q) THEN m ELSE MinFrom(q, i + 1, IF DLt(q[i], m) THEN q[i] ELSE m)
RECURSIVE MaxFrom(_, _, _)
MaxFrom(q, i, m) == IF i > Len(q) THEN m ELSE MaxFrom(q, i + 1, IF DLt(m, q[i]) THEN q[i] ELSE m)
Least(q) == IF q = <<>> THEN DZero ELSE MinFrom(q, 2, q[1])
Most(q) == IF q = <<>> THEN DZero ELSE MaxFrom(q, 2, q[1])

(* ------- shapes: a shape is given as [t |-> type, parts |-> <<points>>],     *)
(* a point being <<x, y, z, m>>                                               *)
Closed(part) == IF part = <<>> \/ part[1] = part[Len(part)] THEN part ELSE Append(part, part[1])
StoredParts(s) == IF s.t \in Rings THEN [i \in 1..Len(s.parts) |-> Closed(s.parts[i])] ELSE s.parts
RECURSIVE Concat(_, _)
Concat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Concat(q, i + 1)
RECURSIVE StartsFrom(_, _, _)
StartsFrom(q, i, n) == IF i > Len(q) THEN <<>> ELSE <<n>> \o StartsFrom(q, i + 1, n + Len(q[i]))
Stored(s) == TLCEval(LET ps == StoredParts(s)  pts == TLCEval(Concat(ps, 1)) IN
  [t |-> s.t, pts |-> pts, starts |-> IF s.t \in Parted THEN StartsFrom(ps, 1, 0) ELSE <<>>,
   ptypes |-> IF s.t = 31 THEN s.ptypes ELSE <<>>])
Coord(pts, k) == [i \in 1..Len(pts) |-> pts[i][k]]
Box(pts) == <<Least(Coord(pts, 1)), Least(Coord(pts, 2)), Most(Coord(pts, 1)), Most(Coord(pts, 2))>>
Range(pts, k) == <<Least(Coord(pts, k)), Most(Coord(pts, k))>>

(* length of the content of a record, in bytes *)
SizeOf(t, n, p) ==          \* of n points in p parts
  IF t = NULL THEN 4
  ELSE IF t \in Points THEN 20 + (IF t \in HasZ THEN 8 ELSE 0) + (IF t \in HasM THEN 8 ELSE 0)
  ELSE 4 + 32 + 4 + 16 * n + (IF t \in Parted THEN 4 + 4 * p ELSE 0) + (IF t = 31 THEN 4 * p ELSE 0)
       + (IF t \in HasZ THEN 16 + 8 * n ELSE 0) + (IF t \in HasM THEN 16 + 8 * n ELSE 0)
Size(s) == SizeOf(s.t, Len(s.pts), Len(s.starts))
RECURSIVE OffsetsFrom(_, _, _)
OffsetsFrom(ss, i, o) == IF i > Len(ss) THEN <<o>> ELSE <<o>> \o OffsetsFrom(ss, i + 1, o + 8 + Size(ss[i]))
Offsets(ss) == OffsetsFrom(ss, 1, 100)            \* and the end of the file

(* ------- reading bytes at offset o (counted from 0) *)
At(f, o) == f[o + 1]
Word(f, o) == At(f, o) + 256 * At(f, o + 1)
LE32(f, o) == LET h == Word(f, o + 2) IN (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + Word(f, o)
BE32(f, o) == LET h == At(f, o) * 256 + At(f, o + 1) IN
              (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + At(f, o + 2) * 256 + At(f, o + 3)
Dbl(f, o) == <<Word(f, o + 6), Word(f, o + 4), Word(f, o + 2), Word(f, o)>>
Dbls(f, o, n) == [i \in 1..n |-> Dbl(f, o + 8 * (i - 1))]
Ints(f, o, n) == [i \in 1..n |-> LE32(f, o + 4 * (i - 1))]

(* ------- the content of the record of shape s that starts at o is written    *)
XY(f, o, pts) == \A i \in 1..Len(pts) : Dbl(f, o + 16 * (i - 1)) = pts[i][1] /\ Dbl(f, o + 16 * (i - 1) + 8) = pts[i][2]
Values(f, o, pts, k) == Dbls(f, o, 2) = Range(pts, k) /\ Dbls(f, o + 16, Len(pts)) = Coord(pts, k)
Content(f, o, s) ==
  LET n == Len(s.pts)  p == Len(s.starts)
      a == o + 36 + (IF s.t \in Parted THEN 4 ELSE 0)                \* number of points
      b == a + 4 + (IF s.t \in Parted THEN 4 * p ELSE 0)             \* part types
      c == b + (IF s.t = 31 THEN 4 * p ELSE 0)                       \* points
      d == c + 16 * n                                                \* elevations
      e == d + (IF s.t \in HasZ THEN 16 + 8 * n ELSE 0) IN           \* measures
  /\ LE32(f, o) = s.t
  /\ CASE s.t = NULL -> TRUE
       [] s.t \in Points -> /\ XY(f, o + 4, s.pts)
                            /\ s.t \in HasZ => Dbl(f, o + 20) = s.pts[1][3]
                            /\ s.t \in HasM => Dbl(f, IF s.t \in HasZ THEN o + 28 ELSE o + 20) = s.pts[1][4]
       [] OTHER -> /\ Dbls(f, o + 4, 4) = Box(s.pts)
                   /\ s.t \in Parted => LE32(f, o + 36) = p /\ Ints(f, a + 4, p) = s.starts
                   /\ LE32(f, a) = n
                   /\ s.t = 31 => Ints(f, b, p) = s.ptypes
                   /\ XY(f, c, s.pts)
                   /\ s.t \in HasZ => Values(f, d, s.pts, 3)
                   /\ s.t \in HasM => Values(f, e, s.pts, 4)
(* ------- whole files: type t, stored shapes ss                               *)
AllPoints(ss) == TLCEval(Concat([i \in 1..Len(ss) |-> ss[i].pts], 1))
HeaderOk(f, t, words) == /\ Len(f) >= 100 /\ BE32(f, 0) = 9994 /\ BE32(f, 24) = words /\ LE32(f, 28) = 1000 /\ LE32(f, 32) = t
BoundsOk(f, t, ss) ==
  LET pts == AllPoints(ss) IN
  /\ Dbls(f, 36, 4) = (IF t = NULL THEN <<DZero, DZero, DZero, DZero>> ELSE Box(pts))
  /\ t \in HasZ => Dbls(f, 68, 2) = Range(pts, 3)
  /\ t \in HasM => Dbls(f, 84, 2) = Range(pts, 4)
RecordsOk(f, ss) == LET off == Offsets(ss) IN
  /\ Len(f) = off[Len(ss) + 1]
  /\ \A i \in 1..Len(ss) : BE32(f, off[i]) = i /\ 2 * BE32(f, off[i] + 4) = Size(ss[i]) /\ Content(f, off[i] + 8, ss[i])
IndexOk(f, ss) == LET off == Offsets(ss) IN
  /\ Len(f) = 100 + 8 * Len(ss)
  /\ \A i \in 1..Len(ss) : /\ 2 * BE32(f, 100 + 8 * (i - 1)) = off[i]
                           /\ 2 * BE32(f, 104 + 8 * (i - 1)) = Size(ss[i])
=============================================================================
