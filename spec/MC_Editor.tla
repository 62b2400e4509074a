------------------------------ MODULE MC_Editor ------------------------------
(* C36: an editor over two files.  Shapes and records are kept in two lists,  *)
(* as the editor keeps them, and are only ever added in pairs; shape n was    *)
(* added together with record n.  A record has as many values as there were   *)
(* fields when it was added, the others being blank.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, First
VARIABLES disk, on, shapes, recs, fields, next, alive, hist
vars == <<disk, on, shapes, recs, fields, next, alive, hist>>
Names == 1..2
None == [there |-> FALSE, shapes |-> <<>>, recs |-> <<>>, fields |-> 0]
Rec(n, w) == [id |-> n, width |-> w]
Init == /\ disk = [k \in Names |-> IF k = 1 THEN [there |-> TRUE, shapes |-> [i \in 1..First |-> i], recs |-> [i \in 1..First |-> Rec(i, 1)], fields |-> 1] ELSE None]
        /\ on = 0 /\ shapes = <<>> /\ recs = <<>> /\ fields = 0 /\ next = First + 1 /\ alive = {} /\ hist = <<>>
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]
Log(x) == Len(hist) < MaxOps /\ hist' = Append(hist, x)
Open == \E k \in Names :
  /\ disk[k].there /\ Last # "open" /\ Log(<<"open", k>>)
  /\ on' = k /\ shapes' = disk[k].shapes /\ recs' = disk[k].recs /\ fields' = disk[k].fields
  /\ alive' = {disk[k].shapes[i] : i \in 1..Len(disk[k].shapes)}
  /\ UNCHANGED <<disk, next>>
(* either of the pair may be added first *)
Add == \E o \in {"shape", "record"} :
  /\ on # 0 /\ Log(<<"add", o>>)
  /\ shapes' = Append(shapes, next) /\ recs' = Append(recs, Rec(next, fields))
  /\ next' = next + 1 /\ alive' = alive \cup {next} /\ UNCHANGED <<disk, on, fields>>
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Delete == \E i \in {0, 1, 0 - 1, Len(shapes) - 1, 0 - Len(shapes), Len(shapes), 0 - Len(shapes) - 1} :
  LET n == Len(shapes)  p == IF i < 0 THEN n + i + 1 ELSE i + 1 IN
  /\ on # 0 /\ Log(<<"delete", i>>)
  /\ IF p \in 1..n THEN /\ shapes' = Without(shapes, p) /\ recs' = Without(recs, p) /\ alive' = alive \ {shapes[p]}
     ELSE UNCHANGED <<shapes, recs, alive>>
  /\ UNCHANGED <<disk, on, fields, next>>
Field == /\ on # 0 /\ fields < 3 /\ Log(<<"field", 0>>) /\ fields' = fields + 1
         /\ UNCHANGED <<disk, on, shapes, recs, next, alive>>
Save == \E k \in Names :
  /\ on # 0 /\ Last # "save" /\ Log(<<"save", k>>)
  /\ disk' = [disk EXCEPT ![k] = [there |-> TRUE, shapes |-> shapes, recs |-> recs, fields |-> fields]]
  /\ UNCHANGED <<on, shapes, recs, fields, next, alive>>
Next == Open \/ Add \/ Delete \/ Field \/ Save
Spec == Init /\ [][Next]_vars
Paired(ss, rs) == Len(ss) = Len(rs) /\ \A i \in 1..Len(ss) : rs[i].id = ss[i]
Ordered(ss) == \A i, j \in 1..Len(ss) : i < j => ss[i] < ss[j]
Good == /\ Paired(shapes, recs) /\ Ordered(shapes)
        /\ {shapes[i] : i \in 1..Len(shapes)} = alive
        /\ \A i \in 1..Len(recs) : recs[i].width <= fields
        /\ \A k \in Names : Paired(disk[k].shapes, disk[k].recs) /\ Ordered(disk[k].shapes)
(* only saving changes a file, and only the one saved to *)
Kept == [][\A k \in Names : disk'[k] # disk[k] => hist'[Len(hist')] = <<"save", k>>]_vars
Export == (Last = "save") => PrintT("@E" \o ToJson(hist))
=============================================================================
