------------------------------ MODULE MC_Quant ------------------------------
(* C10, one axis: a box on a world grid of N cells around a set of points   *)
(* (coordinates in 1/D of a cell), then quantization to U+1 codes.          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, D, U
VARIABLES lo, hi, box, pt, code
vars == <<lo, hi, box, pt, code>>
World == 0..(N * D)
Floor(v) == v \div D
Ceil(v) == (v + D - 1) \div D
BoxOf(a, b) == LET f == Floor(a) c == Ceil(b) IN
  IF f # c THEN <<f, c>> ELSE IF f < N THEN <<f, f + 1>> ELSE <<f - 1, f>>
Init == lo \in World /\ hi \in {v \in World : v >= lo} /\ box = <<0, 0>> /\ pt = 0 /\ code = 0 - 1
MakeBox == box = <<0, 0>> /\ box' = BoxOf(lo, hi) /\ UNCHANGED <<lo, hi, pt, code>>
Quantize == /\ box # <<0, 0>> /\ code < 0
            /\ \E v \in lo..hi : /\ pt' = v
                 /\ code' = (2 * (v - box[1] * D) * U + (box[2] - box[1]) * D)
                            \div (2 * (box[2] - box[1]) * D)
            /\ UNCHANGED <<lo, hi, box>>
Next == MakeBox \/ Quantize
Spec == Init /\ [][Next]_vars
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Encloses == box # <<0, 0>> =>
  /\ box[1] * D <= lo /\ hi <= box[2] * D /\ box[1] < box[2] /\ 0 <= box[1] /\ box[2] <= N
  /\ lo - box[1] * D <= D /\ box[2] * D - hi <= D
Coded == code >= 0 => code \in 0..U
(* back = box[1]*D + code*(box[2]-box[1])*D/U : within half of (box2-box1)*D/U *)
HalfStep == code >= 0 =>
  2 * AbsI((box[1] * D - pt) * U + code * (box[2] - box[1]) * D) <= (box[2] - box[1]) * D
=============================================================================
