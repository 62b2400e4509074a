------------------------------- MODULE T_Grad -------------------------------
(* Judging recorded gradients (C25) with exact arithmetic: positions over d, *)
(* channels over c (all Big), results over c as well.                        *)
EXTENDS Judge, Big
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
R40 == TLCEval(Pos(Pow2(40)))
Stops(e) == DOMAIN e.stops
(* neighbours of x: the last stop at or before, the first stop at or after; 0 if none *)
Before(e) == {i \in Stops(e) : Le(e.stops[i].x, e.x)}
After(e) == {i \in Stops(e) : Le(e.x, e.stops[i].x)}
Lo(e) == CHOOSE i \in Before(e) : \A j \in Before(e) : Le(e.stops[j].x, e.stops[i].x)
Hi(e) == CHOOSE i \in After(e) : \A j \in After(e) : Le(e.stops[i].x, e.stops[j].x)
Close(a, b, cd) == \A k \in 1..3 : Le(Mul(AbsB(Sub(a[k], b[k])), R40), cd)
Same(a, b) == \A k \in 1..3 : Eq(a[k], b[k])
(* channel k is n / w over the colour denominator *)
Mix(e, k) == LET a == e.stops[Lo(e)] b == e.stops[Hi(e)] IN
  Add(Mul(a.c[k], Sub(b.x, e.x)), Mul(b.c[k], Sub(e.x, a.x)))
Width(e) == Sub(e.stops[Hi(e)].x, e.stops[Lo(e)].x)
Right(e, g) ==
  IF Before(e) = {} THEN Close(g, e.stops[Hi(e)].c, e.cd)
  ELSE IF After(e) = {} THEN Close(g, e.stops[Lo(e)].c, e.cd)
  ELSE IF Lo(e) = Hi(e) THEN Same(g, e.stops[Lo(e)].c)
  ELSE \A k \in 1..3 : Le(Mul(AbsB(Sub(Mul(g[k], Width(e)), Mix(e, k))), R40), Mul(Width(e), e.cd))
(* 15 g lies in [d, d + 1) up to rounding *)
Digit(e, g, k, d) == LET v == Mul(Mul(I(15), g[k]), R40) cd == Mul(e.cd, R40) tol == Mul(I(32), e.cd) IN
  Le(Mul(I(d), cd), Add(v, tol)) /\ Lt(Sub(v, tol), Mul(I(d + 1), cd))
GetE(e) ==
  << <<"answers", Ok(e.res)>>,
     <<"interpolates-between-neighbouring-stops", Ok(e.res) => Right(e, e.res.v)>>,
     <<"one-digit-per-channel", Ok(e.hex) /\ Len(e.hex.v) = 4 /\ e.hex.v[1] = 35
         /\ \A k \in 2..4 : e.hex.v[k] \in (48..57) \cup (97..102) \cup (65..70)>>,
     <<"digits-rounded-down", (Ok(e.res) /\ Ok(e.hex) /\ Len(e.hex.v) = 4) => \A k \in 1..3 :
         LET h == e.hex.v[k + 1] IN
         Digit(e, e.res.v, k, IF h < 58 THEN h - 48 ELSE IF h < 71 THEN h - 55 ELSE h - 87)>>,
     <<"order-does-not-matter", e.other = e.text>>,
     <<"list-left-alone", e.kept>> >>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, GetE(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
