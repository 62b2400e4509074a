-------------------------------- MODULE Big --------------------------------
(* Exact arithmetic beyond TLC's 32-bit integers.  A natural number is a    *)
(* sequence of base-10000 limbs, least significant first, no leading zeros  *)
(* (zero is <<>>); a signed number is [neg |-> BOOLEAN, n |-> natural].     *)
EXTENDS Integers, Sequences, TLC
LOCAL B == 10000

RECURSIVE FromInt(_)
FromInt(i) == IF i = 0 THEN <<>> ELSE <<i % B>> \o FromInt(i \div B)

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

(* -1, 0, 1 *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN 0 - 1
                    ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
CmpN(a, b) == IF Len(a) < Len(b) THEN 0 - 1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE CmpFrom(a, b, Len(a))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + c IN <<t % B>> \o AddFrom(a, b, i + 1, t \div B)
AddN(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==      \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET t == Limb(a, i) - Limb(b, i) - c IN
       <<(t + B) % B>> \o SubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
SubN(a, b) == Trim(SubFrom(a, b, 1, 0))
RECURSIVE MulSmallFrom(_, _, _, _)
MulSmallFrom(a, m, i, c) ==
  IF i > Len(a) THEN FromInt(c)
  ELSE LET t == a[i] * m + c IN <<t % B>> \o MulSmallFrom(a, m, i + 1, t \div B)
MulSmall(a, m) == IF m = 0 THEN <<>> ELSE MulSmallFrom(a, m, 1, 0)      \* 0 <= m < B
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) == IF i > Len(b) THEN <<>>
  ELSE LET r == MulFrom(a, b, i + 1) IN
       AddN(MulSmall(a, b[i]), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MulN(a, b) == MulFrom(a, b, 1)

Pos(n) == [neg |-> FALSE, n |-> n]
I(i) == IF i < 0 THEN [neg |-> TRUE, n |-> FromInt(0 - i)] ELSE Pos(FromInt(i))
Neg(x) == [neg |-> ~x.neg /\ x.n # <<>>, n |-> x.n]
Add(x, y) == IF x.neg = y.neg THEN [neg |-> x.neg, n |-> AddN(x.n, y.n)]
             ELSE LET c == CmpN(x.n, y.n) IN
               IF c = 0 THEN Pos(<<>>)
               ELSE IF c > 0 THEN [neg |-> x.neg, n |-> SubN(x.n, y.n)]
               ELSE [neg |-> y.neg, n |-> SubN(y.n, x.n)]
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == LET p == MulN(x.n, y.n) IN [neg |-> x.neg # y.neg /\ p # <<>>, n |-> p]
AbsB(x) == Pos(x.n)
Cmp(x, y) == LET d == Sub(x, y) IN IF d.n = <<>> THEN 0 ELSE IF d.neg THEN 0 - 1 ELSE 1
Le(x, y) == Cmp(x, y) <= 0
Lt(x, y) == Cmp(x, y) < 0
Eq(x, y) == Cmp(x, y) = 0
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE MulSmall(Pow2(k - 1), 2)
=============================================================================
