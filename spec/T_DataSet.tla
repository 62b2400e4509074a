----------------------------- MODULE T_DataSet -----------------------------
(* Judging recorded sessions on RangeGrid data sets.  The first event of a  *)
(* session is what was written; the rest are reads.                         *)
EXTENDS Judge, DataSet
VARIABLES s, l, cur
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1 /\ cur = 1
W == Sess[1]
RECURSIVE Rows(_)
Rows(q) == IF q = <<>> THEN 0 ELSE Len(Head(q)) + Rows(Tail(q))
Total(d) == Rows([i \in 1..Len(d) |-> [j \in 1..Rows(d[i]) |-> j]])
R(e) == IF e.op = "next" THEN ReadNext(W.ids, cur) ELSE ReadId(W.ids, cur, e.id)
Clauses(e) ==
  IF e.op = "open" THEN << <<"opens", Ok(e.res)>>, <<"refused", \A i \in 1..Len(e.refused) : e.refused[i] = "exc">>, <<"columns", Ok(e.res) => e.res.v = e.columns>>,
                            \* for whoever reads the file without its index
                            <<"header-counts-columns-and-rows", Ok(e.res) => e.head = <<Len(e.columns), Total(e.data)>> >> >>
  ELSE IF e.op = "frac" THEN << <<"refused-or-reads-back", e.res.k = "exc" \/ (Ok(e.res) /\ e.res.v = e.want)>> >>
  ELSE LET r == R(e) IN
    IF r.ok THEN << <<"read-succeeds", Ok(e.res)>>,
                    <<IF e.op = "next" THEN "sequential-read" ELSE "read-by-id",
                      Ok(e.res) => e.res.v = W.data[r.ent]>> >>
    ELSE << <<IF e.op = "next" THEN "end-is-an-error" ELSE "unknown-id-is-an-error", e.res.k = "exc">> >>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ cur' = (IF Sess[l].op \in {"open", "frac"} THEN 1 ELSE R(Sess[l]).cur)
         /\ RunClauses(s, l, Clauses(Sess[l]), <<"cursor", cur>>)
JSpec == JInit /\ [][JNext]_<<s, l, cur>>
=============================================================================
