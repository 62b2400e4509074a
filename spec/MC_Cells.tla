------------------------------ MODULE MC_Cells ------------------------------
(* C12: fixed-size cells for texts of characters of one to three bytes.       *)
EXTENDS Dbf, Json
CONSTANTS MaxLen, MaxSize
Alphabet == {<<32>>, <<65>>, <<195, 169>>, <<226, 130, 172>>}
VARIABLES t, n, done
vars == <<t, n, done>>
RECURSIVE Texts(_)
Texts(k) == IF k = 0 THEN {<<>>} ELSE Texts(k - 1) \cup {Append(x, c) : x \in {y \in Texts(k - 1) : Len(y) = k - 1}, c \in Alphabet}
Init == t \in Texts(MaxLen) /\ n \in 1..MaxSize /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, n>>
Spec == Init /\ [][Next]_vars
(* characters of a byte string (the code is prefix-free)                      *)
RECURSIVE Decode(_)
Decode(b) == IF b = <<>> THEN <<>>
  ELSE LET k == IF b[1] < 128 THEN 1 ELSE IF b[1] < 224 THEN 2 ELSE 3 IN <<SubSeq(b, 1, k)>> \o Decode(SubSeq(b, k + 1, Len(b)))
Fixed == Len(Cell("C", n, t)) = n
Back == Strip(Decode(Cell("C", n, t))) = Text("C", n, t)
Kept == Len(Bytes(t, 1)) <= n => Text("C", n, t) = Strip(t)
Longest == LET f == Fit(t, 1, n) IN Len(Bytes(f, 1)) <= n /\ (Len(f) < Len(t) => Len(Bytes(f, 1)) + Len(t[Len(f) + 1]) > n)
Export == done => PrintT("@E" \o ToJson(<<t, n, Text("C", n, t)>>))
=============================================================================
