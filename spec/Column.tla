------------------------------- MODULE Column -------------------------------
(* C07: fixed-size columns.  An integer column stores the offset from its   *)
(* lower bound, a real column the nearest of equally spaced codes from one  *)
(* bound to the other; the highest code of a nullable column means null.    *)
EXTENDS Integers, Sequences, TLC
CONSTANT Base                       \* codes per byte (256)
Null == 0 - 9999999      \* stands for None
Nothing == 0 - 9999998   \* not yet known
Pow(k) == CASE k = 1 -> Base [] k = 2 -> Base * Base
NullBit(c) == IF c.nullable THEN 1 ELSE 0
Size(c) == IF c.hi - c.lo < Pow(1) - NullBit(c) THEN 1 ELSE 2
Top(c) == Pow(c.size) - 1 - NullBit(c)             \* highest code of a value
NullCode(c) == Top(c) + 1
IntCol(lo, hi, n) == [kind |-> "int", lo |-> lo, hi |-> hi, nullable |-> n,
                      size |-> Size([lo |-> lo, hi |-> hi, nullable |-> n])]
RealCol(lo, hi, sz, n) == [kind |-> "real", lo |-> lo, hi |-> hi, nullable |-> n, size |-> sz]

(* values of real columns are numerators over Den *)
Accepts(c, v, Den) == IF v = Null THEN c.nullable ELSE c.lo * Den <= v /\ v <= c.hi * Den
Code(c, v, Den) ==
  IF v = Null THEN NullCode(c)
  ELSE IF c.kind = "int" THEN v \div Den - c.lo
  ELSE (2 * (v - c.lo * Den) * Top(c) + (c.hi - c.lo) * Den) \div (2 * (c.hi - c.lo) * Den)
(* decoded value as a numerator over Den * Top(c) *)
Decode(c, k, Den) ==
  IF c.nullable /\ k = NullCode(c) THEN Null
  ELSE IF c.kind = "int" THEN (c.lo + k) * Den * Top(c)
  ELSE c.lo * Den * Top(c) + k * (c.hi - c.lo) * Den
RECURSIVE Bytes(_, _)
Bytes(k, n) == IF n = 0 THEN <<>> ELSE Append(Bytes(k \div Base, n - 1), k % Base)
=============================================================================
