------------------------------ MODULE T_Compass ------------------------------
(* Judging compass points, hours and normalized angles.                      *)
EXTENDS Judge, Compass
S == INSTANCE Sphere
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
D == 1000000
Point(e) == << <<"nearest-point", Ok(e.res) /\ e.res.v \in Nearest(e.b, D, e.tol)>> >>
Hour(e) == << <<"hour-in-range", Ok(e.res) /\ e.inrange>>, <<"hour-same-direction", Ok(e.res) => HourOk(e.h30, e.b, D, 2 + e.tol)>> >>
TwoPi == S!Add(S!Pi, S!Pi)
RECURSIVE Times(_, _)
Times(x, k) == IF k < 0 THEN S!Neg(Times(x, 0 - k)) ELSE S!Mul(x, S!I(k))
(* 2 pi to 12 digits, hence the tolerance per turn                            *)
Angle(e) == << <<"angle-normalized", Ok(e.res) /\ S!Le(S!AbsB(e.r), S!Add(S!Pi, S!Tiny(1)))>>,
               <<"angle-same-direction", Ok(e.res) => S!Near(S!Sub(e.a, e.r), Times(TwoPi, e.turns), S!Tiny(10 + 10 * Abs(e.turns)))>>,
               <<"angle-unchanged", (Ok(e.res) /\ e.there) => e.same>> >>
Clauses(e) == CASE e.op = "point" -> Point(e) [] e.op = "hour" -> Hour(e) [] e.op = "angle" -> Angle(e)
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
