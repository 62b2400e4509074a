------------------------------- MODULE T_Stats -------------------------------
(* Judging recorded statistics (C24).  Data are integers over a common      *)
(* denominator d; results are integers over 2^40 (rounded).                 *)
EXTENDS Judge, Big
VARIABLES s, l
Sess == Trace[s]
JInit == s \in 1..Len(Trace) /\ l = 1
R == TLCEval(Pos(Pow2(40)))
RECURSIVE SumB(_, _), SumAbs(_, _), Dot(_, _, _), MaxAbs(_, _)
SumB(x, i) == IF i > Len(x) THEN I(0) ELSE Add(x[i], SumB(x, i + 1))
SumAbs(x, i) == IF i > Len(x) THEN I(0) ELSE Add(AbsB(x[i]), SumAbs(x, i + 1))
Dot(x, y, i) == IF i > Len(x) THEN I(0) ELSE Add(Mul(x[i], y[i]), Dot(x, y, i + 1))
MaxAbs(x, i) == IF i > Len(x) THEN I(0) ELSE LET m == MaxAbs(x, i + 1) a == AbsB(x[i]) IN IF Lt(m, a) THEN a ELSE m
Within(a, b, tol) == Le(AbsB(Sub(a, b)), tol)
Sq(a) == Mul(a, a)
Pow(k) == Pos(Pow2(k))
(* n^2 * (co)variance *)
Co(x, y) == Sub(Mul(I(Len(x)), Dot(x, y, 1)), Mul(SumB(x, 1), SumB(y, 1)))
RECURSIVE Gaps(_, _, _)
Gaps(x, i, j) == IF i > Len(x) THEN I(0) ELSE IF j > Len(x) THEN Gaps(x, i + 1, i + 2)
                 ELSE Add(AbsB(Sub(x[i], x[j])), Gaps(x, i, j + 1))
Largest(r, x) == (\E i \in 1..Len(x) : Eq(r, x[i])) /\ \A i \in 1..Len(x) : Le(x[i], r)
Smallest(r, x) == (\E i \in 1..Len(x) : Eq(r, x[i])) /\ \A i \in 1..Len(x) : Le(r, x[i])
Right(e) ==
  LET x == e.x  q == e.q  n == I(Len(x))  d == e.d  n2 == Sq(n)  nd == Mul(n2, Sq(d)) M == MaxAbs(x, 1) IN
  CASE e.f = "max" -> Largest(e.exact, x)
    [] e.f = "min" -> Smallest(e.exact, x)
    [] e.f = "len" -> Eq(e.exact, Mul(n, d))
    [] e.f = "sum" -> Within(Mul(q, d), Mul(R, SumB(x, 1)), Add(d, SumAbs(x, 1)))
    [] e.f = "avg" -> Within(Mul(Mul(q, d), n), Mul(R, SumB(x, 1)), Add(Mul(d, n), SumAbs(x, 1)))
    [] e.f = "var" -> Within(Mul(q, nd), Mul(R, Co(x, x)), Add(nd, Mul(Mul(n2, Sq(M)), I(16))))
    [] e.f = "std_dev" -> /\ Le(I(0), q)
                          /\ Within(Mul(Sq(q), nd), Mul(Sq(R), Co(x, x)),
                               Add(Mul(nd, Add(Mul(I(2), q), I(1))), Mul(Mul(Mul(n2, Sq(M)), I(16)), R)))
    [] e.f = "covar" -> LET N == MaxAbs(e.y, 1) IN
         Within(Mul(q, nd), Mul(R, Co(x, e.y)), Add(nd, Mul(Mul(n2, Mul(M, N)), I(16))))
    [] e.f = "corr" -> LET N == MaxAbs(e.y, 1) C == Co(x, e.y) scale == Mul(n2, Mul(M, N)) IN
         /\ Within(Mul(Sq(q), Mul(Co(x, x), Co(e.y, e.y))), Mul(Sq(R), Sq(C)), Mul(Pow(50), Sq(scale)))
         /\ Lt(scale, Mul(Pow(15), AbsB(C))) => q.neg = C.neg
         /\ Le(AbsB(q), Add(R, Pow(16)))
    [] e.f \in {"gini_kakwani", "gini_deaton"} ->
         LET k == I(Len(x) - 1) S == SumB(x, 1) IN
         Within(Mul(q, Mul(k, S)), Mul(R, Gaps(x, 1, 2)), Add(Mul(k, AbsB(S)), Mul(Pow(12), Mul(k, SumAbs(x, 1)))))
CallE(e) == << <<"answers", Ok(e.res)>>, <<"equals-its-definition", Ok(e.res) => Right(e)>>,
  <<"same-answer-at-any-time", \A j \in 1..(l - 1) :
      (Sess[j].op = "call" /\ Sess[j].f = e.f /\ Sess[j].id = e.id) => Sess[j].res = e.res>> >>
Tot(infos, i) == LET RECURSIVE T(_) T(k) == IF k > Len(infos) THEN 0 ELSE infos[k][i] + T(k + 1) IN T(1)
InfoE(e) == << <<"totals-are-sums", Ok(e.res) /\ Len(e.res.v) = 4 /\ \A i \in 1..4 : e.res.v[i] = Tot(e.infos, i)>> >>
ClearE(e) == << <<"clears", Ok(e.res)>>, <<"every-cache-empty", \A i \in 1..Len(e.infos) : e.infos[i][4] = 0>> >>
Clauses(e) == CASE e.op = "call" -> CallE(e) [] e.op = "info" -> InfoE(e) [] e.op = "clear" -> ClearE(e)
                [] e.op = "flood" -> << <<"answers", e.ok>> >>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ RunClauses(s, l, Clauses(Sess[l]), "")
JSpec == JInit /\ [][JNext]_<<s, l>>
=============================================================================
