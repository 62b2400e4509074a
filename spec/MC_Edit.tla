------------------------------- MODULE MC_Edit -------------------------------
(* C26: an editor turning one name into another, one edit per character at  *)
(* most; no run of the editor is cheaper than the distance, and some is as  *)
(* cheap.                                                                    *)
EXTENDS Words, Json
CONSTANTS Alphabet, MaxLen
VARIABLES a, b, i, j, cost
vars == <<a, b, i, j, cost>>
Strs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == a \in Strs /\ b \in Strs /\ i = 0 /\ j = 0 /\ cost = 0
Go(di, dj, c) == i + di <= Len(a) /\ j + dj <= Len(b) /\ i' = i + di /\ j' = j + dj /\ cost' = cost + c /\ UNCHANGED <<a, b>>
Keep == i < Len(a) /\ j < Len(b) /\ a[i + 1] = b[j + 1] /\ Go(1, 1, 0)
Subst == Go(1, 1, 1)
Insert == Go(0, 1, 1)
Delete == Go(1, 0, 1)
Swap == i + 2 <= Len(a) /\ j + 2 <= Len(b) /\ a[i + 1] = b[j + 2] /\ a[i + 2] = b[j + 1] /\ Go(2, 2, 1)
Next == Keep \/ Subst \/ Insert \/ Delete \/ Swap
(* only the cheapest runs to each alignment point *)
Done == i = Len(a) /\ j = Len(b)
Spec == Init /\ [][Next]_vars
Least == cost >= Dist(SubSeq(a, 1, i), SubSeq(b, 1, j))
Best == cost = Dist(SubSeq(a, 1, i), SubSeq(b, 1, j))
(* from every point reached at least cost but the end, some step is on a least-cost run backwards *)
Attained == (i = 0 /\ j = 0) => \A p \in 0..Len(a), q \in 0..Len(b) :
  LET D(x, y) == Dist(SubSeq(a, 1, x), SubSeq(b, 1, y)) IN
  (p > 0 \/ q > 0) =>
     \/ (p > 0 /\ q > 0 /\ D(p, q) = D(p - 1, q - 1) + (IF a[p] = b[q] THEN 0 ELSE 1))
     \/ (p > 0 /\ D(p, q) = D(p - 1, q) + 1) \/ (q > 0 /\ D(p, q) = D(p, q - 1) + 1)
     \/ (p > 1 /\ q > 1 /\ a[p] = b[q - 1] /\ a[p - 1] = b[q] /\ D(p, q) = D(p - 2, q - 2) + 1)
Metric == (i = 0 /\ j = 0) => /\ Dist(a, b) = Dist(b, a) /\ (Dist(a, b) = 0 <=> a = b)
                              /\ Dist(a, b) <= MaxW(Len(a), Len(b))
Export == (i = 0 /\ j = 0) => PrintT("@E" \o ToJson(<<a, b, Dist(a, b)>>))
=============================================================================
