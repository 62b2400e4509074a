------------------------------ MODULE MC_Compass ------------------------------
(* C34: sixteen sectors centred on the compass points cover the full turn.   *)
EXTENDS Compass, TLC, Json
CONSTANT Turns
VARIABLE b
D == 8
Init == b \in {0 - 360 * D * Turns + i : i \in 0..(2 * Turns * 360 * D)}
Next == UNCHANGED b
Spec == Init /\ [][Next]_b
Covered == Nearest(b, D, 0) # {}
OneOrTie == LET S == Nearest(b, D, 0) IN
  IF (2 * b) % (45 * D) = (45 * D) \div 2 THEN \E x, y \in S : x # y /\ S = {x, y} ELSE \E x \in S : S = {x}
Periodic == Nearest(b, D, 0) = Nearest(b + 360 * D, D, 0)
Opposite == \A i \in 1..16 : Points[i] \in Nearest(b, D, 0) <=> Points[((i + 7) % 16) + 1] \in Nearest(b + 180 * D, D, 0)
Cardinal == /\ "N" \in Nearest(0, D, 0) /\ "W" \in Nearest(90 * D, D, 0) /\ "S" \in Nearest(180 * D, D, 0) /\ "E" \in Nearest(270 * D, D, 0)
Hours == \A h \in {3, 6, 9, 12} : HourOk(h * 30 * D, 0 - h * 30 * D, D, 0)
Export == PrintT("@E" \o ToJson(b))
=============================================================================
