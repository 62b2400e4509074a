------------------------------ MODULE MC_Save ------------------------------
(* C13: a writer that collects shapes and saves them any number of times.    *)
(* Saving writes records one after another, noting where each starts and how *)
(* long it is, then the index from these notes.                              *)
EXTENDS Shp, Json
CONSTANTS TypeSet, MaxOps, Catalog
VARIABLES Type, shapes, notes, pos, index, fileLen, phase, hist
vars == <<Type, shapes, notes, pos, index, fileLen, phase, hist>>
P(n) == [i \in 1..n |-> <<DZero, DZero, DZero, DZero>>]
Line(n) == [i \in 1..n |-> <<<<i, 0, 0, 0>>, DZero, DZero, DZero>>]
Kinds == << [t |-> NULL, parts |-> <<>>, ptypes |-> <<>>],
            [t |-> Type, parts |-> IF Type \in Points THEN <<P(1)>> ELSE <<Line(3)>>, ptypes |-> <<31>>],
            [t |-> Type, parts |-> IF Type \in Points THEN <<P(1)>> ELSE <<P(2), Line(2)>>, ptypes |-> <<2, 3>>] >>
Init == Type \in TypeSet /\ shapes = <<>> /\ notes = <<>> /\ pos = 0 /\ index = <<>> /\ fileLen = 0 /\ phase = "open" /\ hist = <<>>
Add == /\ phase = "open" /\ Len(hist) < MaxOps
       /\ \E k \in 1..Catalog : shapes' = Append(shapes, Stored(Kinds[k])) /\ hist' = Append(hist, k)
       /\ UNCHANGED <<notes, pos, index, fileLen, phase>>
Start == /\ phase = "open" /\ Len(hist) < MaxOps
         /\ phase' = "writing" /\ notes' = <<>> /\ pos' = 100 /\ hist' = Append(hist, 0)
         /\ UNCHANGED <<shapes, index, fileLen>>
Write == /\ phase = "writing" /\ Len(notes) < Len(shapes)
         /\ LET s == shapes[Len(notes) + 1] IN notes' = Append(notes, <<pos, Size(s)>>) /\ pos' = pos + 8 + Size(s)
         /\ UNCHANGED <<shapes, index, fileLen, phase, hist>>
Finish == /\ phase = "writing" /\ Len(notes) = Len(shapes)
          /\ phase' = "open" /\ index' = notes /\ fileLen' = pos
          /\ UNCHANGED <<shapes, notes, pos, hist>>
Next == (Add \/ Start \/ Write \/ Finish) /\ UNCHANGED Type
Spec == Init /\ [][Next]_vars
Saved == phase = "open" /\ hist # <<>> /\ hist[Len(hist)] = 0
Consistent == Saved => LET off == Offsets(shapes) IN
  /\ Len(index) = Len(shapes) /\ fileLen = off[Len(shapes) + 1] /\ fileLen % 4 = 0
  /\ \A i \in 1..Len(shapes) : index[i] = <<off[i], Size(shapes[i])>>
(* records follow each other without gap *)
Tiled == Saved => \A i \in 1..Len(index) : index[i][1] + 8 + index[i][2] = (IF i = Len(index) THEN fileLen ELSE index[i + 1][1])
Export == (Saved /\ Len(shapes) > 0) => PrintT("@E" \o ToJson(<<Type, hist>>))
=============================================================================
