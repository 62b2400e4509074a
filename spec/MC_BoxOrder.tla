---------------------------- MODULE MC_BoxOrder ----------------------------
(* C03: all pairs of boxes over coordinates that include hash-alike values. *)
EXTENDS Box, Json
CONSTANTS Neg, Hi
Lo == 0 - Neg
VARIABLES a, b
Boxes == {<<x, y, z, w>> \in (Lo..Hi) \X (Lo..Hi) \X (Lo..Hi) \X (Lo..Hi) : x <= z /\ y <= w}
Init == a \in Boxes /\ b = a
Next == b = a /\ b' \in Boxes /\ b' # a /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
c == Cmp(a, b)
r == Cmp(b, a)
Trichotomy == /\ c.lt = r.gt /\ c.le = r.ge /\ c.eq = r.eq
              /\ c.le = ~c.gt /\ c.ge = ~c.lt
              /\ (c.eq => c.le /\ c.ge /\ ~c.lt /\ ~c.gt)
              /\ ~(c.lt /\ c.gt) /\ c.ne = ~c.eq
Export == PrintT("@E" \o ToJson(<<a, b, c>>))
=============================================================================
