------------------------------ MODULE MC_Atlas ------------------------------
(* C37: drawing a map part by part.  The shapes of a source are visited in    *)
(* order; parts of shapes not asked for and parts with too few points are     *)
(* passed over; every other part is painted, and the box of the page grows by *)
(* it unless the part begins outside the region, when the box is put back.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxShapes, MaxParts
VARIABLES src, i, j, page, box, kept, phase
vars == <<src, i, j, page, box, kept, phase>>
Kinds == {"short", "inside", "outside"}
PartLists == UNION {[1..n -> Kinds] : n \in 1..MaxParts}
Shape == [sel : BOOLEAN, parts : PartLists]
Init == /\ src \in UNION {[1..n -> Shape] : n \in 0..MaxShapes}
        /\ i = 1 /\ j = 1 /\ page = <<>> /\ box = {} /\ kept = {} /\ phase = "visit"
More == i <= Len(src)
NextPart == IF j < Len(src[i].parts) THEN i' = i /\ j' = j + 1 ELSE i' = i + 1 /\ j' = 1
SkipShape == phase = "visit" /\ More /\ ~src[i].sel /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED <<src, page, box, kept, phase>>
Part == src[i].parts[j]
SkipPart == phase = "visit" /\ More /\ src[i].sel /\ Part = "short" /\ NextPart /\ UNCHANGED <<src, page, box, kept, phase>>
Paint == /\ phase = "visit" /\ More /\ src[i].sel /\ Part # "short"
         /\ kept' = box /\ page' = Append(page, <<i, j>>) /\ box' = box \cup {<<i, j>>} /\ phase' = "painted"
         /\ UNCHANGED <<src, i, j>>
Settle == /\ phase = "painted" /\ phase' = "visit" /\ NextPart
          /\ box' = IF Part = "outside" THEN kept ELSE box
          /\ UNCHANGED <<src, page, kept>>
Next == SkipShape \/ SkipPart \/ Paint \/ Settle
Spec == Init /\ [][Next]_vars
Asked == {<<a, b>> \in (1..MaxShapes) \X (1..MaxParts) : a <= Len(src) /\ src[a].sel /\ b <= Len(src[a].parts) /\ src[a].parts[b] # "short"}
Done == phase = "visit" /\ ~More
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Complete == Done => /\ {page[k] : k \in 1..Len(page)} = Asked
                    /\ \A a, b \in 1..Len(page) : a < b => Before(page[a], page[b])
                    /\ box = {p \in Asked : src[p[1]].parts[p[2]] = "inside"}
Never == \A k \in 1..Len(page) : page[k] \in Asked
Export == Done => PrintT("@E" \o ToJson(src))
=============================================================================
