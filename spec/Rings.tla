-------------------------------- MODULE Rings --------------------------------
(* C15: polygons in a sequence of rings; cw[i]: ring i is clockwise.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flat(q, i + 1)
Begins(cw) == {i \in 1..Len(cw) : i = 1 \/ cw[i]}
Ends(cw, i) == CHOOSE j \in i..Len(cw) : (j = Len(cw) \/ (j + 1) \in Begins(cw)) /\ \A k \in (i + 1)..j : k \notin Begins(cw)
RECURSIVE GroupsFrom(_, _)
GroupsFrom(cw, i) == IF i > Len(cw) THEN <<>>
  ELSE LET j == Ends(cw, i) IN <<[k \in 1..(j - i + 1) |-> i + k - 1]>> \o GroupsFrom(cw, j + 1)
Groups(cw) == GroupsFrom(cw, 1)
(* twice the signed area of a closed ring of integer points; negative if clockwise *)
RECURSIVE Area2From(_, _)
Area2From(r, i) == IF i >= Len(r) THEN 0
  ELSE r[i][1] * r[i + 1][2] - r[i + 1][1] * r[i][2] + Area2From(r, i + 1)
Area2(r) == Area2From(r, 1)
Clockwise(r) == Area2(r) < 0
=============================================================================
