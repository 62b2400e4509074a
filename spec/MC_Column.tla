----------------------------- MODULE MC_Column -----------------------------
(* Every column over small bounds, every value: choose, encode, decode.     *)
EXTENDS Column, Json
CONSTANTS Los, His, Den, Sizes
VARIABLES col, val, code, back
vars == <<col, val, code, back>>
Cols == {IntCol(lo, hi, n) : lo \in Los, hi \in His, n \in BOOLEAN}
        \cup {RealCol(lo, hi, z, n) : lo \in Los, hi \in His, z \in Sizes, n \in BOOLEAN}
Good == {c \in Cols : c.lo < c.hi /\ (c.kind = "int" => c.hi - c.lo < Pow(2) - NullBit(c))}
Vals(c) == {v * (IF c.kind = "int" THEN Den ELSE 1) :
              v \in (IF c.kind = "int" THEN c.lo..c.hi ELSE (c.lo * Den)..(c.hi * Den))}
Init == col \in Good /\ val = Nothing /\ code = Nothing /\ back = Nothing
Encode == /\ val = Nothing
          /\ \E v \in {Null} \cup Vals(col) :
               /\ Accepts(col, v, Den) /\ val' = v /\ code' = Code(col, v, Den)
          /\ UNCHANGED <<col, back>>
DecodeIt == code # Nothing /\ back = Nothing /\ back' = Decode(col, code, Den) /\ UNCHANGED <<col, val, code>>
Next == Encode \/ DecodeIt
Spec == Init /\ [][Next]_vars
Fits == code # Nothing => code \in 0..(Pow(col.size) - 1)
T == Top(col)
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
RoundTrip == back # Nothing =>
  IF val = Null \/ back = Null THEN val = back
  ELSE IF col.kind = "int" THEN back = val * T
  ELSE /\ 2 * AbsI(back - val * T) <= (col.hi - col.lo) * Den
       /\ col.lo * Den * T <= back /\ back <= col.hi * Den * T
Codes == code # Nothing => \A w \in Vals(col) :
  (val # Null /\ val <= w) => code <= Code(col, w, Den)
NullApart == code # Nothing /\ val = Null => \A w \in Vals(col) : Code(col, w, Den) # code
Export == back # Nothing =>
  PrintT("@E" \o ToJson([c |-> col, v |-> IF val = Null THEN <<>> ELSE <<val>>, b |-> Bytes(code, col.size)]))
=============================================================================
