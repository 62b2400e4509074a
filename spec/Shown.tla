------------------------------- MODULE Shown -------------------------------
(* C30: which entities a frame shows, and the cell of a point.               *)
EXTENDS Integers, Sequences, Box
(* The frame is half-open; so is the extent of a part, unless it is a point   *)
(* or a line, which still has the coordinate it lies on.                      *)
Share(f0, f1, o0, o1) == MaxI(f0, o0) < MinI(f1, IF o1 = o0 THEN o1 + 1 ELSE o1)
Shows(f, b) == Share(f[1], f[3], b[1], b[3]) /\ Share(f[2], f[4], b[2], b[4])
ShowsEntity(f, parts) == \E i \in 1..Len(parts) : Shows(f, Tight(parts[i]))
RECURSIVE Select(_, _, _)
Select(f, ents, i) == IF i > Len(ents) THEN <<>>
  ELSE (IF ShowsEntity(f, ents[i].parts) THEN <<ents[i].name>> ELSE <<>>) \o Select(f, ents, i + 1)
(* cell number c of the numerator x over d at scale s over d                  *)
Cell(x, s) == x \div s
=============================================================================
