---------------------------- MODULE MC_BoxTight ----------------------------
(* C01: feeding points one by one; the box stays the smallest closed box    *)
(* that holds all points seen so far.                                       *)
EXTENDS Box, Json
CONSTANTS Neg, Hi, MaxLen
Lo == 0 - Neg
VARIABLES pts, box
Init == \E x, y \in Lo..Hi : pts = <<<<x, y>>>> /\ box = Point(<<x, y>>)
Feed(p) == Len(pts) < MaxLen /\ pts' = Append(pts, p) /\ box' = Extend(box, p)
Next == \E x, y \in Lo..Hi : Feed(<<x, y>>)
Spec == Init /\ [][Next]_<<pts, box>>
In(b, p) == b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
Covers == \A i \in 1..Len(pts) : In(box, pts[i])
Smallest == \A k \in 1..4 : \E i \in 1..Len(pts) : pts[i][IF k \in {1, 3} THEN 1 ELSE 2] = box[k]
OrderFree == box = Tight(pts)
Export == PrintT("@E" \o ToJson(<<pts, box>>))
=============================================================================
