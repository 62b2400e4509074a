-------------------------------- MODULE Vlq --------------------------------
(* C08: variable-length integers.  A byte is a group plus a continuation    *)
(* flag of weight Group; a number is given by its groups, most significant  *)
(* first, without leading zero groups (zero is <<0>>).                      *)
EXTENDS Integers, Sequences, TLC
CONSTANT Group              \* 128
RECURSIVE Groups(_)
Groups(v) == IF v < Group THEN <<v>> ELSE Append(Groups(v \div Group), v % Group)
Flagged(g) == [i \in 1..Len(g) |-> IF i < Len(g) THEN g[i] + Group ELSE g[i]]
Encode(v) == Flagged(Groups(v))
Minimal(g) == Len(g) >= 1 /\ (Len(g) > 1 => g[1] # 0)
(* reading from position i: <<value groups, next position>> *)
RECURSIVE ReadFrom(_, _, _)
ReadFrom(bytes, i, acc) ==
  IF bytes[i] >= Group THEN ReadFrom(bytes, i + 1, Append(acc, bytes[i] - Group))
  ELSE <<Append(acc, bytes[i]), i + 1>>
Read(bytes, i) == ReadFrom(bytes, i, <<>>)
RECURSIVE Value(_)
Value(g) == IF g = <<>> THEN 0 ELSE Value(SubSeq(g, 1, Len(g) - 1)) * Group + g[Len(g)]
Sign == 2 * Group - 1
EncodeS(v) == IF v < 0 THEN <<Sign>> \o Encode(0 - v) ELSE <<0>> \o Encode(v)
=============================================================================
