------------------------------ MODULE DataSet ------------------------------
(* C09: a RangeGrid data set.  Entities are written one by one, each a      *)
(* sequence of segments; after closing, a reader has a cursor: the entity   *)
(* the next sequential read returns.                                        *)
EXTENDS Integers, Sequences, TLC
(* positions by identifier; 0 if unknown, the first if repeated *)
RECURSIVE FindFrom(_, _, _)
FindFrom(ids, id, i) == IF i > Len(ids) THEN 0 ELSE IF ids[i] = id THEN i ELSE FindFrom(ids, id, i + 1)
Find(ids, id) == FindFrom(ids, id, 1)
(* a read: [ok, ent, cursor] *)
ReadId(ids, cur, id) == LET i == Find(ids, id) IN
  IF i = 0 THEN [ok |-> FALSE, ent |-> 0, cur |-> cur] ELSE [ok |-> TRUE, ent |-> i, cur |-> i + 1]
ReadNext(ids, cur) ==
  IF cur > Len(ids) THEN [ok |-> FALSE, ent |-> 0, cur |-> cur] ELSE [ok |-> TRUE, ent |-> cur, cur |-> cur + 1]
=============================================================================
