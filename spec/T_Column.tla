------------------------------ MODULE T_Column ------------------------------
(* Judging recorded column encodings with exact arithmetic (C07).  All      *)
(* numbers of an event are integers over its common denominator.            *)
EXTENDS Judge, Big
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1

Codes(size, nullable) == SubN(Pow2(8 * size), IF nullable THEN <<2>> ELSE <<1>>)
InRange(e) == Le(e.lo, e.v) /\ Le(e.v, e.hi)
Refused(e) == e.enc = "exc"

IntE(e) ==
  << <<"size-is-1-2-4-8", e.size \in {1, 2, 4, 8}>>,
     <<"out-of-range-refused", ~InRange(e) => Refused(e)>>,
     <<"in-range-accepted", InRange(e) => ~Refused(e)>>,
     <<"encoded-size", ~Refused(e) => e.len = e.size>>,
     <<"integer-roundtrip", (InRange(e) /\ ~Refused(e)) => (e.dec = "num" /\ Eq(e.got, e.v) /\ e.int)>> >>

(* |got - v| <= (hi - lo) / (2 codes) + rounding of 2^-46 of the magnitudes *)
Near(e) == LET C == Pos(Codes(e.size, e.nullable))  R == Pos(Pow2(46))
               M == Add(AbsB(e.lo), AbsB(e.hi)) IN
  Le(Mul(Mul(Mul(AbsB(Sub(e.got, e.v)), I(2)), C), R),
     Add(Mul(Sub(e.hi, e.lo), R), Mul(Mul(I(2), C), M)))
RealE(e) ==
  << <<"out-of-range-refused", ~InRange(e) => Refused(e)>>,
     <<"in-range-accepted", InRange(e) => ~Refused(e)>>,
     <<"encoded-size", ~Refused(e) => e.len = e.size>>,
     <<"real-half-step", (InRange(e) /\ ~Refused(e)) => (e.dec = "num" /\ Near(e))>>,
     <<"real-inside-range", (InRange(e) /\ ~Refused(e) /\ e.dec = "num") =>
         LET tol == Add(AbsB(e.lo), AbsB(e.hi)) IN
         /\ Le(Mul(e.lo, Pos(Pow2(46))), Add(Mul(e.got, Pos(Pow2(46))), tol))
         /\ Le(Mul(e.got, Pos(Pow2(46))), Add(Mul(e.hi, Pos(Pow2(46))), tol))>> >>
NullE(e) ==
  << <<"null-refused-unless-nullable", ~e.nullable => Refused(e)>>,
     <<"null-accepted-if-nullable", e.nullable => ~Refused(e)>>,
     <<"encoded-size", ~Refused(e) => e.len = e.size>>,
     <<"null-roundtrip", (e.nullable /\ ~Refused(e)) => e.dec = "null">>,
     <<"null-distinct", (e.nullable /\ ~Refused(e)) => e.distinct>> >>
(* a number that is not whole, in an integer column *)
WholeE(e) == << <<"refused-or-read-back", Refused(e) \/ (e.dec = "num" /\ Eq(e.got, e.v) /\ e.len = e.size)>> >>
TextE(e) ==
  << <<"too-long-refused", e.bytes > e.size => Refused(e)>>,
     <<"fitting-accepted", (e.bytes <= e.size /\ ~e.odd) => ~Refused(e)>>,
     <<"encoded-size", ~Refused(e) => e.len = e.size>>,
     <<"text-roundtrip", (e.bytes <= e.size /\ ~Refused(e)) => (e.dec = "text" /\ e.got = e.v)>> >>
(* a row is the concatenation of its columns *)
RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
RowE(e) ==
  << <<"row-size", e.size = Len(Flat(e.parts, 1)) /\ e.cols = Len(e.parts)>>,
     <<"row-concatenates", e.bytes = Flat(e.parts, 1)>>,
     <<"row-roundtrip", e.got = e.want>> >>
(* decoded values in the order of the values; the bounds apart *)
OrderE(e) ==
  << <<"order-kept", \A i \in 1..(Len(e.got) - 1) : Le(e.got[i], e.got[i + 1])>>,
     <<"bounds-distinct", Lt(e.got[1], e.got[Len(e.got)])>> >>
Clauses(e) == CASE e.op = "int" -> IntE(e) [] e.op = "real" -> RealE(e) [] e.op = "null" -> NullE(e)
                [] e.op = "text" -> TextE(e) [] e.op = "row" -> RowE(e) [] e.op = "order" -> OrderE(e)
                [] e.op = "whole" -> WholeE(e)
                [] e.op = "nan" -> << <<"no-number-refused", Refused(e)>> >>
                [] e.op = "short" -> << <<"incomplete-row-refused", Refused(e)>> >>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
