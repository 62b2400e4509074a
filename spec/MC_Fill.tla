------------------------------- MODULE MC_Fill -------------------------------
(* C18: two triangles on either side of a shared edge, filled with the same *)
(* rule, partition the pixels of their union.                               *)
EXTENDS Pixels, Json
CONSTANTS N
VARIABLES a, b, c, d, phase
vars == <<a, b, c, d, phase>>
G == (0..N) \X (0..N)
Side(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
(* with y downwards, upward edges are on the left when the ring has positive side *)
Init == a \in G /\ b \in G /\ c = a /\ d = a /\ phase = 0
PickC == phase = 0 /\ a # b /\ c' \in {p \in G : Side(a, b, p) > 0} /\ phase' = 1 /\ UNCHANGED <<a, b, d>>
PickD == phase = 1 /\ d' \in {p \in G : Side(a, b, p) < 0} /\ phase' = 2 /\ UNCHANGED <<a, b, c>>
Next == PickC \/ PickD
Spec == Init /\ [][Next]_vars
T1 == <<<<a, b, c>>>>
T2 == <<<<b, a, d>>>>
Both == <<<<a, b, c>>, <<b, a, d>>>>
(* the crossing of the shared edge is rounded one way for both *)
Disjoint == phase = 2 => \A y \in 0..N : LET m1 == RowMarks(T1, y) m2 == RowMarks(T2, y) IN
  \A x \in 0..N : ~(Inside(m1, x) = "yes" /\ Inside(m2, x) = "yes")
(* and filled in one go they are the union of both *)
Union == phase = 2 => \A y \in 0..N : LET m1 == RowMarks(T1, y) m2 == RowMarks(T2, y) m == RowMarks(Both, y) IN
  \A x \in 0..N : (Inside(m1, x) = "yes" \/ Inside(m2, x) = "yes") => Inside(m, x) # "no"
Export == phase = 2 => PrintT("@E" \o ToJson(<<a, b, c, d>>))
=============================================================================
