---------------------------- MODULE MC_DataSet ----------------------------
(* Layout of the two files: rows of all entities one after another, lengths *)
(* of the segments in the index; reads go through offset arithmetic.        *)
EXTENDS DataSet, Json, FiniteSets
CONSTANTS Ids, Shapes, MaxEnt
VARIABLES phase, ids, lens, rows, cur, pos, op
vars == <<phase, ids, lens, rows, cur, pos, op>>
RECURSIVE Sum(_, _)
Sum(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + Sum(q, i + 1)
Total(q) == Sum(q, 1)
Init == phase = "writing" /\ ids = <<>> /\ lens = <<>> /\ rows = <<>> /\ cur = 1 /\ pos = 0 /\ op = <<"init">>
Write(id, shape) ==
  /\ phase = "writing" /\ Len(ids) < MaxEnt /\ Find(ids, id) = 0
  /\ ids' = Append(ids, id) /\ lens' = Append(lens, shape)
  /\ rows' = rows \o [i \in 1..Total(shape) |-> <<Len(ids) + 1, i>>]
  /\ op' = <<"write", id, shape>> /\ UNCHANGED <<phase, cur, pos>>
(* rows of which one is refused, or an identifier the index cannot hold,
   leave no trace                                                          *)
Refuse == phase = "writing" /\ op' = <<"refused">> /\ UNCHANGED <<phase, ids, lens, rows, cur, pos>>
Close == phase = "writing" /\ phase' = "reading" /\ op' = <<"close">> /\ UNCHANGED <<ids, lens, rows, cur, pos>>
RECURSIVE Offset(_)
Offset(i) == IF i <= 1 THEN 0 ELSE Total(lens[i - 1]) + Offset(i - 1)
RECURSIVE Cut(_, _, _)
Cut(sh, i, at) == IF i > Len(sh) THEN <<>>
  ELSE <<SubSeq(rows, at + 1, at + sh[i])>> \o Cut(sh, i + 1, at + sh[i])
DoRead(o, r, at) ==
  IF r.ok THEN /\ cur' = r.cur /\ pos' = at + Total(lens[r.ent])
               /\ op' = o \o <<"ok", r.ent, Cut(lens[r.ent], 1, at)>>
  ELSE cur' = cur /\ pos' = pos /\ op' = o \o <<"error">>
ById(id) == phase = "reading" /\ DoRead(<<"id", id>>, ReadId(ids, cur, id), Offset(Find(ids, id)))
            /\ UNCHANGED <<phase, ids, lens, rows>>
Sequential == phase = "reading" /\ DoRead(<<"next">>, ReadNext(ids, cur), pos)
              /\ UNCHANGED <<phase, ids, lens, rows>>
Next == \/ \E id \in Ids, sh \in Shapes : Write(id, sh)
        \/ Refuse \/ Close \/ Sequential \/ \E id \in Ids : ById(id)
Spec == Init /\ [][Next]_vars
View == <<phase, ids, lens, cur>>
NoTrace == [][op'[1] = "refused" => UNCHANGED <<phase, ids, lens, rows, cur, pos>>]_vars
(* the file position always agrees with the cursor, so that a sequential    *)
(* read returns the rows written for the entity at the cursor               *)
Positioned == (phase = "reading" /\ cur <= Len(ids)) => pos = Offset(cur)
Written(i) == LET sh == lens[i] IN [k \in 1..Len(sh) |-> [j \in 1..sh[k] |-> <<i, Total(SubSeq(sh, 1, k - 1)) + j>>]]
AsWritten == [][(phase = "reading" /\ Len(op') > 3) =>
                op'[Len(op')] = Written(op'[Len(op') - 1])]_vars
Export == PrintT("@E" \o ToJson([s |-> <<phase, ids, lens, cur>>, op |-> op', t |-> <<phase', ids', lens', cur'>>]))
=============================================================================
