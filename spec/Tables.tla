-------------------------------- MODULE Tables --------------------------------
(* C22, C23: a table is [cols |-> sequence of names, rows |-> sequence of    *)
(* sequences of values].                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoVal == "''"
Cols(t) == {t.cols[i] : i \in 1..Len(t.cols)}
Col(t, k) == CHOOSE i \in 1..Len(t.cols) : t.cols[i] = k
Cell(t, r, k) == IF k \in Cols(t) THEN t.rows[r][Col(t, k)] ELSE NoVal
(* the first row of t2 that agrees with row r of t1 on the pivots; 0 if none *)
Agrees(t1, r, t2, q, piv) == \A k \in piv : Cell(t1, r, k) = Cell(t2, q, k)
Partner(t1, r, t2, piv) ==
  LET m == {q \in 1..Len(t2.rows) : Agrees(t1, r, t2, q, piv)} IN
  IF m = {} THEN 0 ELSE CHOOSE q \in m : \A p \in m : q <= p
(* what a cell of the joined row is: the partner's columns extend (and overrule) the row's *)
Joined(t1, r, t2, piv, k) ==
  LET q == Partner(t1, r, t2, piv) IN
  IF q # 0 /\ k \in Cols(t2) THEN {Cell(t2, q, k)} ELSE {Cell(t1, r, k)}
Without(cs, ks) == SelectSeq(cs, LAMBDA c : c \notin ks)
Having(t, k, v) == SelectSeq([i \in 1..Len(t.rows) |-> i], LAMBDA i : Cell(t, i, k) = v)
(* --- delimited files: lines are <<kind, cells>> *)
Ignored(line) == line[1] \in {"blank", "comment"}
Data(lines) == SelectSeq(lines, LAMBDA x : ~Ignored(x))
FileTable(lines) == LET d == Data(lines) IN [cols |-> d[1][2], rows |-> [i \in 1..(Len(d) - 1) |-> d[i + 1][2]]]
Project(t, ks) == [cols |-> ks, rows |-> [i \in 1..Len(t.rows) |-> [j \in 1..Len(ks) |-> Cell(t, i, ks[j])]]]
===============================================================================
