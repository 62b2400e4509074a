------------------------------- MODULE MC_Jaro -------------------------------
(* C27: characters of the first name claim characters of the second one.    *)
EXTENDS Words, Json
CONSTANTS Alphabet, MaxLen
VARIABLES a, b, i, used, pairs
vars == <<a, b, i, used, pairs>>
Strs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == a \in Strs /\ b \in Strs /\ i = 1 /\ used = {} /\ pairs = <<>>
Claim == /\ i <= Len(a) /\ i' = i + 1 /\ UNCHANGED <<a, b>>
         /\ LET free == {j \in 1..Len(b) : j >= i - Window(a, b) /\ j <= i + Window(a, b) /\ j \notin used /\ b[j] = a[i]} IN
            IF free = {} THEN UNCHANGED <<used, pairs>>
            ELSE LET j == CHOOSE j \in free : \A k \in free : j <= k IN
                 used' = used \cup {j} /\ pairs' = Append(pairs, <<i, j>>)
Next == Claim
Spec == Init /\ [][Next]_vars
Start == i = 1
Once == Cardinality(used) = Len(pairs) /\ (i > Len(a) => pairs = Match(a, b, 1, {}))
Unit(x) == 0 <= x[1] /\ x[1] <= x[2]
Normal == Start => LET x == Jaro(a, b) y == Winkler(a, b) IN
  /\ Unit(x) /\ Unit(y)
  /\ (x[1] = x[2]) <=> (a = b /\ a # <<>>)
  /\ ({a[k] : k \in 1..Len(a)} \cap {b[k] : k \in 1..Len(b)} = {}) => x[1] = 0
  /\ x[1] * y[2] <= y[1] * x[2]
Symmetric == Start => LET x == Jaro(a, b) y == Jaro(b, a) IN x[1] * y[2] = y[1] * x[2]
Export == Start => PrintT("@E" \o ToJson(<<a, b, Jaro(a, b), Winkler(a, b)>>))
=============================================================================
