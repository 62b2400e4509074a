------------------------------ MODULE T_ShpRead ------------------------------
(* C14: judging histories of reader calls.  Shapes and records are known by   *)
(* their position (from 1); 0 stands for a deleted record.                    *)
EXTENDS Judge, FiniteSets
VARIABLES s, l, its
Sess == Trace[s]
H == Sess[1]                    \* [op "file", n shapes, r records, gone]
JInit == s \in 1..Len(Trace) /\ l = 1 /\ its = <<>>
Gone(i) == \E k \in 1..Len(H.gone) : H.gone[k] = i
Rec(i) == IF Gone(i) THEN 0 ELSE i
Count(e) == IF e.what = "s" THEN H.n ELSE IF e.what = "r" THEN H.r ELSE Min2(H.n, H.r)
Pos(e, n) == IF e.i < 0 THEN n + e.i + 1 ELSE e.i + 1
Inside(e, n) == 0 - n <= e.i /\ e.i < n
Val(what, i) == IF what = "s" THEN <<i, 0>> ELSE IF what = "r" THEN <<0, Rec(i)>> ELSE <<i, Rec(i)>>
Items(what) == SelectSeq([i \in 1..Count([what |-> what]) |-> Val(what, i)], LAMBDA x : what = "s" \/ x[2] # 0)
Get(e) == LET n == Count(e) IN
  IF e.what = "b" /\ H.n # H.r THEN <<>>
  ELSE IF Inside(e, n) THEN << <<"item-at-position", Ok(e.res) /\ e.res.v = <<Val(e.what, Pos(e, n))>> >> >>
  ELSE << <<"outside-is-index-error", Exc(e.res, "IndexError")>> >>
All(e) == << <<"whole-file", Ok(e.res) /\ e.res.v = Items(e.what)>> >>
Step(e) == LET it == its[e.k] IN
  << <<"iteration-in-order", Ok(e.res) /\ e.res.v = (IF it[2] > Len(Items(it[1])) THEN <<>> ELSE <<Items(it[1])[it[2]]>>)>> >>
Clauses(e) == CASE e.op = "get" -> Get(e) [] e.op = "all" -> All(e) [] e.op = "next" -> Step(e)
                [] e.op = "iter" -> << <<"iteration-starts", Ok(e.res)>> >> [] OTHER -> <<>>
JNext == /\ l <= Len(Sess) /\ l' = l + 1 /\ s' = s
         /\ LET e == Sess[l] IN
            /\ its' = CASE e.op = "iter" -> Append(its, <<e.what, 1>>)
                        [] e.op = "next" -> [its EXCEPT ![e.k] = <<@[1], @[2] + 1>>]
                        [] OTHER -> its
            /\ RunClauses(s, l, Clauses(e), "")
JSpec == JInit /\ [][JNext]_<<s, l, its>>
=============================================================================
