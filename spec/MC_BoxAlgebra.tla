--------------------------- MODULE MC_BoxAlgebra ---------------------------
(* C02: an accumulator box combined with further boxes, as drawings do.     *)
EXTENDS Box, Json
CONSTANTS Lo, Hi
VARIABLES acc, op
Boxes == {<<a, b, c, d>> \in (Lo..Hi) \X (Lo..Hi) \X (Lo..Hi) \X (Lo..Hi) : a <= c /\ b <= d}
Pts == (Lo..Hi) \X (Lo..Hi)
Mem(b) == {p \in Pts : HasPoint(b, p)}
Ans(a, b) == [union |-> Union(a, b), inter |-> Inter(a, b), collide |-> Collide(a, b),
              both |-> Area(a) > 0 /\ Area(b) > 0, hasbox |-> HasBox(a, b)]
Init == acc = Empty /\ op = <<"start">>
OrWith(b)  == acc' = Union(acc, b) /\ op' = <<"or", b, Ans(acc, b)>>
AndWith(b) == acc' = Inter(acc, b) /\ op' = <<"and", b, Ans(acc, b)>>
Next == \E b \in Boxes : OrWith(b) \/ AndWith(b)
Spec == Init /\ [][Next]_<<acc, op>>
View == acc
(* the meaning of the two combinations, by membership *)
InterIsSet == [][op'[1] = "and" => Mem(acc') = Mem(acc) \cap Mem(op'[2])]_<<acc, op>>
CollideIsShared == [][op'[3].both => (op'[3].collide <=> Mem(acc) \cap Mem(op'[2]) # {})]_<<acc, op>>
Within(a, b) == b[1] <= a[1] /\ b[2] <= a[2] /\ a[3] <= b[3] /\ a[4] <= b[4]
UnionIsLeast == [][(op'[1] = "or" /\ acc # Empty /\ op'[2] # Empty) =>
                   /\ Within(acc, acc') /\ Within(op'[2], acc')
                   /\ \A c \in Boxes : Within(acc, c) /\ Within(op'[2], c) => Within(acc', c)]_<<acc, op>>
ContainMeans == [][op'[3].hasbox => Inter(acc, op'[2]) \in {op'[2], Empty} /\ Union(acc, op'[2]) \in {acc, op'[2]}]_<<acc, op>>
Export == PrintT("@E" \o ToJson([s |-> acc, op |-> op', t |-> acc']))
=============================================================================
