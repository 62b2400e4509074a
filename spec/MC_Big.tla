------------------------------- MODULE MC_Big -------------------------------
(* The exact arithmetic agrees with TLC's own integers where both apply.    *)
EXTENDS Big
CONSTANTS Step, Top
VARIABLES x, y
Vals == {k * Step - Top : k \in 0..((2 * Top) \div Step)}
Init == x \in Vals /\ y = 0
Next == y = 0 /\ y' \in Vals \ {0} /\ x' = x
Spec == Init /\ [][Next]_<<x, y>>
Sum == Eq(Add(I(x), I(y)), I(x + y)) /\ Eq(Sub(I(x), I(y)), I(x - y))
Prod == Eq(Mul(I(x), I(y)), I(x * y))
Order == Cmp(I(x), I(y)) = (IF x < y THEN 0 - 1 ELSE IF x > y THEN 1 ELSE 0)
Canon == Add(I(x), I(y)) = I(x + y) /\ Mul(I(x), I(y)) = I(x * y) /\ Sub(I(x), I(y)) = I(x - y)
=============================================================================
