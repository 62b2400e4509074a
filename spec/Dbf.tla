-------------------------------- MODULE Dbf --------------------------------
(* C12, C13: attribute tables.  Texts are sequences of characters, each the   *)
(* sequence of its bytes; a value is [k |-> kind, c |-> characters].          *)
EXTENDS Integers, Sequences, TLC
Blank == <<32>>
White == {<<32>>, <<9>>, <<10>>, <<11>>, <<12>>, <<13>>}
RECURSIVE LStrip(_)
LStrip(t) == IF t = <<>> THEN t ELSE IF t[1] \in White THEN LStrip(Tail(t)) ELSE t
RECURSIVE RStrip(_)
RStrip(t) == IF t = <<>> THEN t ELSE IF t[Len(t)] \in White THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == RStrip(LStrip(t))
RECURSIVE Bytes(_, _)
Bytes(t, i) == IF i > Len(t) THEN <<>> ELSE t[i] \o Bytes(t, i + 1)
RECURSIVE Fit(_, _, _)
Fit(t, i, n) == IF i > Len(t) \/ (i <= Len(t) /\ Len(t[i]) > n) THEN <<>> ELSE <<t[i]>> \o Fit(t, i + 1, n - Len(t[i]))
Pad(b, n) == b \o [i \in 1..(n - Len(b)) |-> 32]
PadL(b, n) == [i \in 1..(n - Len(b)) |-> 32] \o b
(* the bytes of a cell *)
Cell(ft, n, t) == IF ft = "N" THEN PadL(Bytes(t, 1), n) ELSE Pad(Bytes(Fit(t, 1, n), 1), n)
(* the text that is read from a cell written with t *)
Text(ft, n, t) == Strip(IF ft = "N" THEN t ELSE Fit(t, 1, n))
=============================================================================
