------------------------------ MODULE MC_Select ------------------------------
(* C30: the scan over an entity file: entities in file order, parts until    *)
(* the first that is shown.                                                  *)
EXTENDS Shown, Json
CONSTANTS Boxes, MaxEnt, MaxParts
Frame == <<2, 2, 4, 4>>
VARIABLES ents, i, j, out
vars == <<ents, i, j, out>>
Catalog == << <<2, 2, 3, 3>>, <<0, 0, 2, 3>>, <<4, 2, 5, 3>>, <<3, 0, 3, 5>>, <<0, 0, 6, 6>>, <<4, 4, 4, 4>>, <<2, 2, 2, 2>>,
              <<1, 3, 5, 3>>, <<3, 3, 3, 3>>, <<2, 0, 4, 2>>, <<0, 0, 1, 1>>, <<1, 1, 2, 2>>, <<2, 4, 3, 5>>, <<0, 3, 2, 3>> >>
Corners(b) == << <<b[1], b[4]>>, <<b[3], b[2]>> >>
RECURSIVE Lists(_, _)
Lists(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == Lists(S, n - 1) IN r \cup {Append(x, y) : x \in {z \in r : Len(z) = n - 1}, y \in S}
Entities == Lists(1..Boxes, MaxParts)
Ent(n, ps) == [name |-> n, parts |-> [k \in 1..Len(ps) |-> Corners(Catalog[ps[k]])]]
Init == /\ \E es \in Lists(Entities, MaxEnt) : ents = [k \in 1..Len(es) |-> Ent(k, es[k])]
        /\ i = 1 /\ j = 1 /\ out = <<>>
Next == /\ i <= Len(ents) /\ UNCHANGED ents
        /\ IF j > Len(ents[i].parts) THEN i' = i + 1 /\ j' = 1 /\ UNCHANGED out
           ELSE IF Shows(Frame, Tight(ents[i].parts[j])) THEN i' = i + 1 /\ j' = 1 /\ out' = Append(out, ents[i].name)
           ELSE i' = i /\ j' = j + 1 /\ UNCHANGED out
Spec == Init /\ [][Next]_vars
Done == i > Len(ents)
Exactly == Done => out = Select(Frame, ents, 1)
Once == \A a, b \in 1..Len(out) : a < b => out[a] < out[b]
Sound == \A a \in 1..Len(out) : ShowsEntity(Frame, ents[out[a]].parts)
(* entities of positive extent: the same as colliding boxes *)
Agrees == \A k \in 1..Boxes : Area(Catalog[k]) > 0 => (Shows(Frame, Catalog[k]) <=> Collide(Frame, Catalog[k]))
Export == Done => PrintT("@E" \o ToJson(<<[k \in 1..Len(ents) |-> ents[k].parts], out>>))
=============================================================================
