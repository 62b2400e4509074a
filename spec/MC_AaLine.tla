------------------------------ MODULE MC_AaLine ------------------------------
(* C19: opacities of anti-aliased lines with ends anywhere: the machine walks *)
(* the columns (or rows) from one end to the other.                            *)
EXTENDS Pixels, Json
CONSTANTS N, Q, Frac
VARIABLES a, b, k, S
vars == <<a, b, k, S>>
Pts == {Q * i + f : i \in 1..(N - 1), f \in Frac}
m == Major(a, b)
At0(v) == (2 * v + Q) \div (2 * Q)          \* the pixel a position lies in
Col(u, v) == IF u < v THEN At0(u) ELSE At0(v)
Last(u, v) == IF u < v THEN At0(v) ELSE At0(u)
Init == /\ a \in Pts \X Pts /\ b \in Pts \X Pts /\ a # b
        /\ k = Col(a[m], b[m]) /\ S = 0
Px(v) == IF m = 1 THEN <<k, v>> ELSE <<v, k>>
RECURSIVE Sum(_)
Sum(v) == IF v > N + 2 THEN 0 ELSE LET o == OpacityF(Px(v), a, b, Q) IN (IF o[1] = 0 THEN 0 ELSE o[1]) + Sum(v + 1)
Next == /\ k <= Last(a[m], b[m]) /\ k' = k + 1 /\ S' = S + Sum(0 - 2) /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
L == AbsP(b[m] - a[m])
(* each step's opacities add up to the part of it that the segment covers,    *)
(* so that all of them add up to the segment's extent                         *)
Share == k <= Last(a[m], b[m]) => /\ Sum(0 - 2) = CoverF(k, a[m], b[m], Q) * Q * L
                                  /\ Cardinality({v \in (0 - 2)..(N + 2) : OpacityF(Px(v), a, b, Q)[1] > 0}) \in 0..2
Total == k > Last(a[m], b[m]) => S = Q * L * L
Mirror == \A v \in 0..N : LET o == OpacityF(Px(v), a, b, Q) r == OpacityF(Px(v), b, a, Q) IN o = r
Export == k > Last(a[m], b[m]) => PrintT("@E" \o ToJson(<<a, b>>))
=============================================================================
