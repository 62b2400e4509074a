------------------------------- MODULE T_Edit -------------------------------
(* C36: judging editing sessions over several files.                          *)
EXTENDS T_Shp
VARIABLES disk
NoValue == [k |-> "none", c |-> <<>>, x |-> ""]
EInit == JInit /\ disk = <<>>
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Place(i, n) == IF i < 0 THEN n + i + 1 ELSE i + 1
Inside(e) == Place(e.i, Len(w.shapes)) \in 1..Len(w.shapes)
Deletes(e) == IF Inside(e) THEN << <<"deletes", Ok(e.res)>> >>
              ELSE << <<"outside-is-index-error", Exc(e.res, "IndexError")>> >>
EClauses(e) == CASE e.op = "delete" -> Deletes(e)
                 [] e.op = "open" -> << <<"opens", Ok(e.res)>> >>
                 [] e.op = "saved" -> << <<"saves", Ok(e.res)>> >>
                 [] OTHER -> Clauses(e)
ENext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ LET e == Sess[l] IN
            /\ w' = CASE e.op = "new" -> [Empty EXCEPT !.type = e.type]
                      [] e.op = "open" -> disk[e.file]
                      [] e.op = "add" -> [w EXCEPT !.shapes = Append(@, Stored(e.shape))]
                      [] e.op = "field" -> [w EXCEPT !.fields = Append(@, e.f), !.descs = Append(@, e.desc),
                                                     !.recs = [i \in 1..Len(@) |-> Append(@[i], NoValue)]]
                      [] e.op = "record" -> [w EXCEPT !.recs = Append(@, e.vals)]
                      [] e.op = "delete" /\ Inside(e) -> LET p == Place(e.i, Len(w.shapes)) IN
                           [w EXCEPT !.shapes = Without(@, p), !.recs = IF p <= Len(@) THEN Without(@, p) ELSE @]
                      [] OTHER -> w
            /\ disk' = IF e.op \in {"saved", "save"} THEN [k \in (DOMAIN disk) \cup {e.file} |-> IF k = e.file THEN [w EXCEPT !.type = FileType(w)] ELSE disk[k]]
                       ELSE disk
            /\ saved' = IF e.op \in {"saved", "save"} THEN [w EXCEPT !.type = FileType(w)] ELSE IF e.op = "look" THEN disk[e.file] ELSE saved
            /\ RunClauses(s, l, EClauses(e), "")
ESpec == EInit /\ [][ENext]_<<s, l, w, saved, disk>>
=============================================================================
