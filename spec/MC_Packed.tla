------------------------------ MODULE MC_Packed ------------------------------
(* C16: packed black-and-white rows refine a picture of independent pixels. *)
EXTENDS Pixels, Json
CONSTANTS W, H, Bits
VARIABLES pic, data, bg, op
vars == <<pic, data, bg, op>>
Px == (0..(W - 1)) \X (0..(H - 1))
RB == RowBytes(W, Bits)
Init == /\ bg \in {0, 1} /\ pic = [p \in Px |-> bg]
        /\ data = [i \in 1..(RB * H) |-> IF bg = 1 THEN P2(Bits) - 1 ELSE 0] /\ op = <<"new">>
Set(p, v) ==
  LET i == p[2] * RB + (p[1] \div Bits) + 1
      w == P2(Bits - 1 - (p[1] % Bits))
      old == (data[i] \div w) % 2
  IN /\ pic' = [pic EXCEPT ![p] = v] /\ data' = [data EXCEPT ![i] = @ + (v - old) * w]
     /\ op' = <<"set", p, v>> /\ UNCHANGED bg
Next == \E p \in Px, v \in {0, 1} : Set(p, v)
Spec == Init /\ [][Next]_vars
View == <<pic, bg>>
Refines == \A p \in Px : BitAt(data, W, p[1], p[2], Bits) = pic[p]
Bytes == \A i \in 1..Len(data) : data[i] \in 0..(P2(Bits) - 1)
Rows(f) == [y \in 1..H |-> [x \in 1..W |-> f[<<x - 1, y - 1>>]]]
Export == PrintT("@E" \o ToJson([s |-> <<Rows(pic), bg>>, op |-> op', t |-> <<Rows(pic'), bg'>>]))
=============================================================================
