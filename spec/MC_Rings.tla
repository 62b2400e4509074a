------------------------------ MODULE MC_Rings ------------------------------
(* C15: grouping a sequence of rings into polygons by their orientation.      *)
EXTENDS Rings, Json
CONSTANT MaxRings
VARIABLES rings, done, cur
vars == <<rings, done, cur>>
(* one ring after another: a clockwise ring closes the current polygon        *)
Init == rings = <<>> /\ done = <<>> /\ cur = <<>>
Next == /\ Len(rings) < MaxRings
        /\ \E cw \in BOOLEAN :
             /\ rings' = Append(rings, cw)
             /\ IF cur # <<>> /\ cw THEN done' = Append(done, cur) /\ cur' = <<Len(rings) + 1>>
                ELSE done' = done /\ cur' = Append(cur, Len(rings) + 1)
Spec == Init /\ [][Next]_vars
Result == Append(done, cur)
Grouped == rings # <<>> => Result = Groups(rings)
Complete == rings # <<>> => Flat(Result, 1) = [i \in 1..Len(rings) |-> i]
Holes == rings # <<>> => \A g \in 1..Len(Result) :
  /\ \A k \in 2..Len(Result[g]) : ~rings[Result[g][k]]
  /\ g > 1 => rings[Result[g][1]]
Export == rings # <<>> => PrintT("@E" \o ToJson(<<rings, Result>>))
=============================================================================
