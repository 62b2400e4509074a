------------------------------- MODULE T_Table -------------------------------
(* Judging recorded table operations; values are their Python notation.     *)
EXTENDS Judge, Tables
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
Intact(e) == <<"given-tables-unchanged", e.intact>>
Rect(t) == \A i \in 1..Len(t.rows) : Len(t.rows[i]) = Len(t.cols)
Set(q) == {q[i] : i \in 1..Len(q)}
JoinE(e) ==
  LET r == e.res.v  piv == IF e.pivots = <<"*">> THEN Cols(e.t1) \cap Cols(e.t2) ELSE Set(e.pivots) IN
  IF ~Ok(e.res) THEN << <<"accepted", FALSE>> >>
  ELSE << Intact(e), <<"columns", Rect(r) /\ (IF e.keys = <<"*">> THEN Cols(r) = Cols(e.t1) \cup Cols(e.t2) /\ Len(r.cols) = Cardinality(Cols(r))
                                              ELSE r.cols = e.keys)>>,
          <<"every-row-once", Len(r.rows) = Len(e.t1.rows)>>,
          <<"extended-by-first-partner", Len(r.rows) = Len(e.t1.rows) => \A i \in 1..Len(r.rows) : \A k \in Cols(r) :
              Cell(r, i, k) \in Joined(e.t1, i, e.t2, piv, k)>> >>
(* rows found are given by their cells *)
GetE(e) ==
  LET h == Having(e.t1, e.key, e.query) IN
  IF ~Ok(e.res) THEN << <<"accepted", FALSE>> >>
  ELSE << Intact(e), <<"rows-with-the-value-in-order",
            e.res.v = (IF e.op = "getall" THEN [i \in 1..Len(h) |-> e.t1.rows[h[i]]]
                       ELSE IF h = <<>> THEN <<>> ELSE <<e.t1.rows[h[1]]>>)>> >>
IndexE(e) ==
  LET r == e.res.v  rest == Without(e.t1.cols, {e.key}) IN
  IF ~Ok(e.res) THEN << <<"accepted", FALSE>> >>
  ELSE << Intact(e), <<"one-entry-per-value", {r[i][1] : i \in 1..Len(r)} = {Cell(e.t1, i, e.key) : i \in 1..Len(e.t1.rows)}>>,
          <<"rest-of-a-row-with-the-value", \A i \in 1..Len(r) : r[i][2] = rest /\ LET h == Having(e.t1, e.key, r[i][1]) IN
              h # <<>> /\ r[i][3] = Project(e.t1, rest).rows[h[Len(h)]]>> >>
AddE(e) ==
  LET r == e.res.v IN
  IF ~Ok(e.res) THEN << <<"accepted", FALSE>> >>
  ELSE << Intact(e), <<"columns", Rect(r) /\ Without(r.cols, {e.key}) = e.t1.cols /\ e.key \in Cols(r)>>,
          <<"other-cells-kept", (Rect(r) /\ Without(r.cols, {e.key}) = e.t1.cols) => Project(r, e.t1.cols) = e.t1>>,
          <<"new-cells", (Rect(r) /\ e.key \in Cols(r)) => [i \in 1..Len(r.rows) |-> Cell(r, i, e.key)] = e.vals>> >>
DelE(e) ==
  LET r == e.res.v rest == Without(e.t1.cols, Set(e.keys)) IN
  IF ~Ok(e.res) THEN << <<"accepted", FALSE>> >>
  ELSE << Intact(e), <<"columns", r.cols = rest>>, <<"other-cells-kept", r = Project(e.t1, rest)>> >>
(* --- C23 *)
ReadE(e) ==
  IF Data(e.lines) = <<>> THEN << <<"no-header-is-an-error", e.res.k = "exc">> >>
  ELSE IF ~Ok(e.res) THEN << <<"accepted", FALSE>> >>
  ELSE LET t == FileTable(e.lines) w == IF e.keys = <<"*">> THEN t ELSE Project(t, e.keys) IN
       << <<"columns-and-rows", IF w.rows = <<>> THEN e.res.v.rows = <<>> ELSE e.res.v = w>> >>
TripE(e) ==
  IF ~Ok(e.res) THEN << <<"accepted", FALSE>> >>
  ELSE LET w == IF e.wkeys = <<"*">> THEN e.t1 ELSE Project(e.t1, e.wkeys)
           r == IF e.keys = <<"*">> THEN w ELSE Project(w, e.keys) IN
       << Intact(e), <<"reads-back", e.res.v = r>> >>
(* --- printing: lines as sequences of characters *)
RECURSIVE Trimmed(_)
Trimmed(x) == IF x = <<>> THEN x ELSE IF x[Len(x)] = " " THEN Trimmed(SubSeq(x, 1, Len(x) - 1)) ELSE x
WidthOf(e, k) == LET ws == {Len(e.head[k])} \cup {Len(e.cells[i][k]) : i \in 1..Len(e.cells)} IN
  CHOOSE w \in ws : \A x \in ws : x <= w
RECURSIVE Offset(_, _)
Offset(e, k) == IF k = 1 THEN 0 ELSE Offset(e, k - 1) + WidthOf(e, k - 1) + 3
At(line, o, t, w) == /\ Len(line) >= o + Len(t) /\ SubSeq(line, o + 1, o + Len(t)) = t
                     /\ \A x \in (o + Len(t) + 1)..(IF o + w + 1 < Len(line) THEN o + w + 1 ELSE Len(line)) : line[x] = " "
PrintE(e) ==
  LET L == e.res.v IN
  IF ~Ok(e.res) THEN << <<"accepted", FALSE>> >>
  ELSE << Intact(e), <<"one-line-per-row", Len(L) = Len(e.cells) + 2>>,
          <<"aligned-cells", Len(L) = Len(e.cells) + 2 => \A k \in 1..Len(e.head) :
              LET o == Offset(e, k) w == WidthOf(e, k) IN
              At(L[1], o, e.head[k], w) /\ \A i \in 1..Len(e.cells) : At(L[i + 2], o, e.cells[i][k], w)>>,
          <<"nothing-else", Len(L) = Len(e.cells) + 2 => \A i \in {1} \cup 3..Len(L) :
              Len(Trimmed(L[i])) <= Offset(e, Len(e.head)) + WidthOf(e, Len(e.head))>> >>
Clauses(e) == CASE e.op = "join" -> JoinE(e) [] e.op \in {"getone", "getall"} -> GetE(e) [] e.op = "index" -> IndexE(e)
                [] e.op = "add" -> AddE(e) [] e.op = "del" -> DelE(e) [] e.op = "read" -> ReadE(e)
                [] e.op = "trip" -> TripE(e) [] e.op = "print" -> PrintE(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
