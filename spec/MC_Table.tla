------------------------------- MODULE MC_Table -------------------------------
(* C22: joining by scanning: every row of the first table looks through the *)
(* second one until it finds a partner.                                     *)
EXTENDS Tables, Json
CONSTANTS Vals, R1, R2
VARIABLES t1, t2, piv, i, j, cur, out
vars == <<t1, t2, piv, i, j, cur, out>>
RowsOf(n, w) == UNION {[1..m -> [1..w -> Vals]] : m \in 1..n}
Keys == <<"a", "b", "c">>
Init == /\ t1 \in {[cols |-> <<"a", "b">>, rows |-> x] : x \in RowsOf(R1, 2)}
        /\ t2 \in {[cols |-> <<"b", "c">>, rows |-> x] : x \in RowsOf(R2, 2)}
        /\ piv = {"b"} /\ i = 1 /\ j = 1 /\ cur = <<>> /\ out = <<>>
Row(r, q) == [k \in 1..3 |-> IF q # 0 /\ Keys[k] \in Cols(t2) THEN Cell(t2, q, Keys[k]) ELSE Cell(t1, r, Keys[k])]
Look == /\ i <= Len(t1.rows) /\ UNCHANGED <<t1, t2, piv, cur>>
        /\ IF j > Len(t2.rows) THEN out' = Append(out, Row(i, 0)) /\ i' = i + 1 /\ j' = 1
           ELSE IF Agrees(t1, i, t2, j, piv) THEN out' = Append(out, Row(i, j)) /\ i' = i + 1 /\ j' = 1
           ELSE j' = j + 1 /\ UNCHANGED <<i, out>>
Next == Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Meaning == /\ Len(out) = i - 1
           /\ \A r \in 1..Len(out) : \A k \in 1..3 : out[r][k] \in Joined(t1, r, t2, piv, Keys[k])
Ends == <>(i > Len(t1.rows))
Export == i > Len(t1.rows) => PrintT("@E" \o ToJson([t1 |-> t1, t2 |-> t2, out |-> out]))
===============================================================================
